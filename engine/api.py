"""Contract API.  A contract is a python function f(c) written once and run in two ways:

* SymC  - over symbolic inputs; the unmodified sources run on the library contracts of shims.py, every
          `ensure` becomes an obligation valid for all inputs (all tensor sizes, all element values);
* ConC  - over concrete inputs on the real torch/numpy and the real package (counterexample replay,
          reachability witness for the preconditions, and run time contract checking).
"""
import builtins
import math
import os
import random
import sys
import tempfile
import shutil
import itertools
from fractions import Fraction
from . import terms as T
from .terms import TRUE, FALSE, R0, R1, I0, I1, R, I
from .core import CTX, Unsupported, Infeasible, dimterm, dimval, Obligation
from . import tensor as X
from .tensor import S, Ten, coerce, as_scalar, s_ite, s_fn, s_lt, s_le, s_eq, s_not
from . import shims
from .shims import TTensor, NArray


class Skip(Exception):
    """sample does not satisfy the preconditions"""


class Violation(Exception):
    def __init__(self, name, msg):
        Exception.__init__(self, "%s: %s" % (name, msg))
        self.name, self.msg = name, msg


class SymText(str):
    """arbitrary text without surrounding blanks; compared with constants only.  `lower`/`casefold` fold the letter case."""
    IDS = {}

    def __new__(cls, term, folded=False):
        s = str.__new__(cls, "<text>")
        s.term, s.folded = term, folded
        return s

    @classmethod
    def code(cls, k):
        return I(cls.IDS.setdefault(builtins.str(k), len(cls.IDS)))

    def lower(self):
        return self if self.folded else SymText(T.app("lower", (self.term,), "I"), True)

    casefold = lower

    def strip(self, *a):
        if a:
            raise Unsupported("strip of given characters")
        return self

    lstrip = rstrip = strip

    def __eq__(self, o):
        if isinstance(o, SymText):
            return S(T.eq(self.term, o.term))
        if not isinstance(o, builtins.str):
            return False
        if not self.folded:
            CTX.assume(T.implies(T.eq(self.term, self.code(o)), T.eq(T.app("lower", (self.term,), "I"), self.code(o.lower()))))
        elif o != o.lower():
            return False
        return S(T.eq(self.term, self.code(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, builtins.bool) else S(T.not_(r.v))

    __hash__ = None

    def __str__(self):
        return self

    def __format__(self, spec):
        return "<text>"

    def _no(self, *a, **k):
        raise Unsupported("operation on an arbitrary text")

    upper = title = capitalize = swapcase = startswith = endswith = find = replace = split = __getitem__ = __contains__ = __add__ = __len__ = __iter__ = isalpha = isdigit = _no


# ====================================================================== symbolic
class SymC(object):
    sym = True

    def __init__(self, world, tier="quick"):
        self.world = world
        self.torch = world.torch
        self.np = world.np
        self.tier = tier
        self.pi = S(T.PI)
        CTX.symc = self

    def mod(self, name):
        return self.world.load("xrd_simulator." + name)

    # ---------------------------------------------------------------- inputs
    def dim(self, name, lo=0, hi=None):
        v = T.var(name, "I")
        CTX.assume(T.le(I(lo), v))
        if lo >= 0:
            T.NONNEG.add(v)
        if hi is not None:
            CTX.assume(T.le(v, I(hi)))
        return S(v)

    def int(self, name, lo=None, hi=None, near=None):
        """an integer in [lo, hi]; near is where samples and counter-models are looked for first, no precondition"""
        v = T.var(name, "I")
        CTX.near[name] = near
        if lo is not None:
            CTX.assume(T.le(dimterm(lo), v))
        if hi is not None:
            CTX.assume(T.le(v, dimterm(hi)))
        return S(v)

    def real(self, name, lo=None, hi=None, open=False, near=None):
        v = T.var(name, "R")
        CTX.near[name] = near
        cmp_ = T.lt if open else T.le
        if lo is not None:
            CTX.assume(cmp_(as_scalar(lo).to_kind("f").v, v))
        if hi is not None:
            CTX.assume(cmp_(v, as_scalar(hi).to_kind("f").v))
        return S(v)

    def bool(self, name):
        return S(T.var(name, "B"))

    def angle_with_cos(self, x):
        """the angle in [0, pi] with that cosine (only for arguments known to be cosines)"""
        return S(T.fn("acos", coerce(x).to_kind("f").v))

    def text(self, name, samples=()):
        """arbitrary text without blanks around it"""
        return SymText(T.var(name, "I"))

    def ten(self, name, shape, lo=None, hi=None, open=False, lib="torch", dtype=None, distinct=False, where=None, near=None):
        """tensor with arbitrary elements; `where(x, *idx)` is a precondition on every element, x(*idx) being the elements"""
        cls = TTensor if lib == "torch" else NArray
        CTX.near[name] = near
        dt = dtype or X.float64
        if isinstance(dt, str):
            dt = {"float": X.float64, "int": X.int64, "bool": X.boolean}[dt]
        sort = {"f": "R", "i": "I", "b": "B"}[dt.kind]
        shape = tuple(dimval(dimterm(d)) for d in shape)
        name = self._variant(name, (sort, str(lo), str(hi), open, shape))
        self._bound_trigger(name, sort, lo, hi, open, shape)
        if where is not None:
            x = lambda *i: S(T.app(name, tuple(as_scalar(q).v if not isinstance(q, builtins.int) else I(q) for q in i), sort)).native()

            def fact(*a):
                if CTX.where_busy:
                    return TRUE
                CTX.where_busy = True
                try:
                    return self.b(where(x, *[S(q).native() for q in a])).v
                finally:
                    CTX.where_busy = False
            CTX.path_triggers[name] = [fact]
        return cls(lambda i: S(T.app(name, i, sort)), shape, dt)

    def _variant(self, name, key):
        """the symbol of an input; an input declared differently on another path gets its own symbol"""
        known = CTX.variants.setdefault(name, [])
        if key not in known:
            known.append(key)
        k = known.index(key)
        return name if k == 0 else "%s~%d" % (name, k)

    def _bound_trigger(self, name, sort, lo, hi, open, shape=None):
        if (lo is None and hi is None) or CTX.triggers.get(name):
            return
        conv = (lambda x: as_scalar(x).to_kind("f").v) if sort == "R" else dimterm
        lo = conv(lo) if lo is not None else None
        hi = conv(hi) if hi is not None else None
        cmp_ = T.lt if open else T.le

        def fact(*a):
            x = T.app(name, a, sort)
            fs = []
            if lo is not None:
                fs.append(cmp_(lo, x))
            if hi is not None:
                fs.append((T.lt if sort == "I" and False else cmp_)(x, hi))
            if sort == "I" and shape is not None:
                rng = T.and_(*[T.and_(T.le(I0, i), T.lt(i, dimterm(d))) for i, d in zip(a, shape)])
                return T.implies(rng, T.and_(*fs))
            return T.and_(*fs)
        CTX.trigger(name, fact)

    def _unit_rule(self, name, n):
        """squared norm of the last axis (size n) is one"""
        def rule(*a):
            if a[-1] is I(n - 1):
                return 2, T.sub(R1, T.add(*[T.powi(T.app(name, a[:-1] + (I(q),), "R"), 2) for q in range(n - 1)]))
            return None
        CTX.rules[name] = rule

        def fact(*a):
            return T.eq(T.add(*[T.powi(T.app(name, a[:-1] + (I(q),), "R"), 2) for q in range(n)]), R1)
        if not CTX.triggers.get(name):
            CTX.trigger(name, fact)

    def unit(self, name, batch=(), lib="torch", n=3):
        self._unit_rule(name, n)
        cls = TTensor if lib == "torch" else NArray
        sh = tuple(dimval(dimterm(d)) for d in batch) + (n,)
        return cls(lambda i: S(T.app(name, i, "R")), sh, X.float64)

    def rot(self, name, batch=(), lib="torch"):
        """rotation matrices, through unit quaternions (every rotation has one)"""
        q = self.unit(name, batch, lib, 4)
        return self.quat_to_mat(q)

    def quat_to_mat(self, q):
        rd = q.reader()
        cls = type(q)

        def fn(idx):
            b, i, j = idx[:-2], idx[-2], idx[-1]
            w, x, y, z = [rd(b + (I(k),)).v for k in range(4)]
            m = quat_mat(w, x, y, z, T)
            if i.op == "const" and j.op == "const":
                return S(m[T.cval(i)][T.cval(j)])
            r = m[2][2]
            for p in range(3):
                for k in range(3):
                    r = T.ite(T.and_(T.eq(i, I(p)), T.eq(j, I(k))), m[p][k], r)
            return S(r)
        return cls(fn, q._shape[:-1] + (3, 3), X.float64)

    def const(self, x, lib="torch"):
        return (shims.tt if lib == "torch" else shims.nt)(x)

    def pick(self, name, options):
        """explore every option (one path each)"""
        options = list(options)
        for k in range(len(options) - 1):
            if CTX.decide(T.app("pick." + name, (I(k),), "B")):
                return options[k]
        return options[-1]

    def fnten(self, f, shape, lib="torch", dtype=None):
        """tensor with entries f(*idx)"""
        cls = TTensor if lib == "torch" else NArray
        shape = tuple(dimval(dimterm(d)) for d in shape)
        dt = {None: X.float64, "float": X.float64, "int": X.int64, "bool": X.boolean}.get(dtype) or dtype
        return cls(lambda i: as_scalar(f(*[S(x).native() for x in i])).to_kind(dt.kind), shape, dt)

    # ---------------------------------------------------------------- access
    def at(self, t, *idx):
        if not isinstance(t, Ten):
            r = coerce(t)
            if r is not None and not idx:
                return r
            t = shims.nt(t)
        if len(idx) != len(t._shape):
            raise Violation("rank", "rank %d expected %d" % (len(t._shape), len(idx)))
        return t.reader(True)(tuple(dimterm(i) for i in idx))

    def shape(self, t):
        return tuple(X.wrapdim(d) for d in t._shape)

    def each(self, *dims, name="i"):
        """generic index / indices into the given extents"""
        out = []
        n0 = len(CTX.assumptions)
        scope = CTX.scope
        if scope is None:
            CTX.scope = n0
        for d in dims:
            dt = dimterm(d)
            if dt.op == "const" and T.cval(dt) == 0:
                CTX.scope = scope
                return
        try:
            for d in dims:
                dt = dimterm(d)
                v = CTX.index(name, dt)
                if v is not I0:
                    CTX.assume(T.le(I0, v))
                    CTX.assume(T.lt(v, dt))
                elif dt.op != "const":
                    CTX.assume(T.lt(I0, dt))
                out.append(S(v).native())
            CTX._known.clear()
            yield out[0] if len(out) == 1 else tuple(out)
        finally:
            del CTX.assumptions[n0:]
            CTX.scope = scope
            CTX._known.clear()

    def exists_index(self, dim, pred, witness):
        raise NotImplementedError

    # ---------------------------------------------------------------- logic / math
    def b(self, x):
        if isinstance(x, S):
            return x.to_kind("b")
        if isinstance(x, Ten):
            return x.item_s().to_kind("b")
        return S(T.B(builtins.bool(x)))

    def and_(self, *xs):
        return S(T.and_(*[self.b(x).v for x in xs]))

    def or_(self, *xs):
        return S(T.or_(*[self.b(x).v for x in xs]))

    def not_(self, x):
        return S(T.not_(self.b(x).v))

    def implies(self, a, b):
        return S(T.implies(self.b(a).v, self.b(b).v))

    def iff(self, a, b):
        return S(T.eq(self.b(a).v, self.b(b).v))

    def lt(self, a, b, **k):
        return s_lt(as_scalar(a), as_scalar(b))

    def le(self, a, b, **k):
        return s_le(as_scalar(a), as_scalar(b))

    def gt(self, a, b, **k):
        return self.lt(b, a)

    def ge(self, a, b, **k):
        return self.le(b, a)

    def eq(self, a, b, **k):
        return s_eq(as_scalar(a), as_scalar(b))

    def ite(self, c, a, b):
        return s_ite(self.b(c), as_scalar(a), as_scalar(b))

    def fn(self, name, x):
        return shims.UNARY[name](as_scalar(x))

    def uf(self, name, *xs):
        """an arbitrary real function of real arguments (symbolic mode only)"""
        xs = [as_scalar(x).to_kind("f") for x in xs]
        return S(T.app("uf_" + name, tuple(x.v for x in xs), "R"))

    def known(self, cond):
        """whether the path conditions imply the condition"""
        return CTX.known(self.b(cond).v)

    def sqrt(self, x):
        return self.fn("sqrt", x)

    def sin(self, x):
        return self.fn("sin", x)

    def cos(self, x):
        return self.fn("cos", x)

    def acos(self, x):
        return self.fn("acos", x)

    def atan(self, x):
        return self.fn("atan", x)

    def exp(self, x):
        return self.fn("exp", x)

    def abs(self, x):
        return self.fn("abs", x)

    def min(self, a, b):
        return X.s_min(as_scalar(a), as_scalar(b))

    def max(self, a, b):
        return X.s_max(as_scalar(a), as_scalar(b))

    def floor(self, x):
        return S(T.floor(as_scalar(x).v))

    def finite(self, x):
        return S(as_scalar(x).fin())

    def isnan(self, x):
        return S(as_scalar(x).nan)

    def sum(self, dims, f, whole=False):
        """sum of f(*idx) over all indices of dims; `whole`: not written out term by term for given numbers"""
        dims = [dimval(dimterm(d)) for d in (dims if isinstance(dims, (tuple, list)) else [dims])]
        if not whole and all(isinstance(d, builtins.int) for d in dims):
            r = S(R0)
            for idx in itertools.product(*[range(d) for d in dims]):
                r = X.s_add(r, as_scalar(f(*idx)))
            return r
        return X.sym_sum(dims, lambda i: as_scalar(f(*[S(x).native() for x in i])))

    def sum_nonneg(self, d, f):
        """sum of terms that are not negative (one obligation for any term): not negative itself"""
        s = self.sum((d,), f, whole=True)
        for i in self.each(d, name="term"):
            self.ensure("terms not negative", self.le(0, f(i)))
        self.assume(self.le(0, s))
        return s

    def sum_split(self, name, n, a, b, f):
        """for 0 <= a <= b <= n: the sum over e < b of n terms is the sum over e < a plus the b - a terms from a on"""
        self.ensure(name, self.and_(self.le(0, a), self.le(a, b), self.le(b, n)))
        upto = lambda m: self.sum((n,), lambda e: self.ite(self.lt(e, m), f(e), 0))
        self.assume(self.eq(upto(b), upto(a) + self.sum((b - a,), lambda e: f(a + e))))

    def sum_zero(self, name, n, mask, f):
        """if the mask selects nothing, the terms under the mask sum to zero"""
        self.assume(self.implies(self.eq(self.nselected((n,), mask), 0), self.eq(self.sum((n,), lambda e: self.ite(mask(e), f(e), 0)), 0)))

    def count(self, dims, f):
        return self.sum(dims, lambda *i: S(T.ite(self.b(f(*i)).v, R1, R0)))

    def nselected(self, dims, f):
        """count, as the number of positions a boolean mask selects"""
        from .core import selection
        dims = [dimval(dimterm(d)) for d in (dims if isinstance(dims, (tuple, list)) else [dims])]
        s, ps = selection(dims, lambda idx: self.b(f(*[S(x).native() for x in idx])).v)
        return S(s.cnt(ps))

    def find(self, d, f):
        """an index below d with the property, if there is one"""
        from .core import selection
        s, ps = selection([dimval(dimterm(d))], lambda idx: self.b(f(*[S(x).native() for x in idx])).v)
        return S(s.sel(0, ps, I(0)))

    def func(self, name, *xs):
        """value of an arbitrary function"""
        return S(T.app("fun." + name, tuple(as_scalar(x).v if not isinstance(x, builtins.int) else I(x) for x in xs), "R"))

    def forall(self, dims, f):
        dims = [dimval(dimterm(d)) for d in (dims if isinstance(dims, (tuple, list)) else [dims])]
        if all(isinstance(d, builtins.int) and d <= 4 for d in dims):
            return self.and_(True, *[f(*idx) for idx in itertools.product(*[range(d) for d in dims])])
        return X.sym_all(dims, lambda i: self.b(f(*[S(x).native() for x in i])))

    # ---------------------------------------------------------------- specification statements
    def assume(self, cond):
        CTX.assume(self.b(cond).v)

    def ensure(self, name, cond, **k):
        CTX.oblige(name, self.b(cond).v)

    def loop(self, key, vars, inv, variant=None, check=None):
        """cut the loop `Class.function#n` with an invariant: inv(env) over its variables; vars: name -> fresh value.
        A variable whose value the invariant determines may be given by that value instead; check(env, when) then obliges it on entry and at the back edge"""
        CTX.invariants[key] = {"c": self, "vars": vars, "inv": inv, "variant": variant, "check": check}

    def use_pairs(self):
        """instantiate extremum and selection facts at every pair of parameters and index at hand"""
        CTX.use_pairs = True

    def fork_arg(self):
        """argmax/argmin over a handful of values: one path per answer"""
        CTX.fork_arg = True

    def lemma(self, name, cond):
        """prove, then use"""
        t = self.b(cond).v
        CTX.oblige("lemma." + name, t, kind="lemma")
        CTX.assume(t)

    def cut(self, name, xs, facts, goal, use=True):
        """cut rule: the facts hold of the values xs (one obligation each), and imply the goal for arbitrary values"""
        xs = [as_scalar(x) for x in xs]
        for k, x in enumerate(xs):
            fin = x.fin()
            if fin is not TRUE:
                CTX.oblige("%s.finite%d" % (name, k), fin, kind="lemma")
                xs[k] = S(x.to_kind("f").v)
        for k, f in enumerate(facts):
            CTX.oblige("%s.fact%d" % (name, k), self.b(f(*xs)).v, kind="lemma")
        ys = [S(CTX.fresh("$c", "R")) for x in xs]
        CTX.obligations.append(Obligation(name, [self.b(f(*ys)).v for f in facts], self.b(goal(*ys)).v, "post"))
        if use:
            CTX.assume(self.b(goal(*xs)).v)

    def same(self, name, a, b, tol=None, scale=None):
        a, b = as_scalar(a), as_scalar(b)
        if a.kind == "b" or b.kind == "b":
            CTX.oblige(name, T.eq(a.to_kind("b").v, b.to_kind("b").v))
            return
        fin = T.and_(a.fin(), b.fin())
        if fin is not TRUE:
            CTX.oblige(name + ".finite", fin)
        # finiteness is a separate obligation, so equality of the values is all that is left
        CTX.oblige(name, T.eq(a.to_kind("f").v, b.to_kind("f").v) if (a.kind == "f" or b.kind == "f") else T.eq(a.v, b.v))

    def same_shape(self, name, t, shape):
        if len(t._shape) != len(shape):
            CTX.oblige(name + ".rank", FALSE)
            raise Infeasible()
        for q, (d, e) in enumerate(zip(t._shape, shape)):
            CTX.oblige("%s.shape[%d]" % (name, q), T.eq(dimterm(d), dimterm(e)))

    def same_t(self, name, t, shape, f, tol=None, scale=None, flags=False):
        if not isinstance(t, Ten):
            CTX.oblige(name + ".is-tensor", FALSE)
            raise Infeasible()
        self.same_shape(name, t, shape)
        rest = [d for d in shape]
        cdims = [q for q, d in enumerate(shape) if isinstance(d, builtins.int) and d <= 6]
        sdims = [q for q in range(len(shape)) if q not in cdims]
        hold = len(CTX.assumptions)
        for si in (self.each(*[shape[q] for q in sdims], name="n") if sdims else [()]):
            if len(sdims) == 1:
                si = (si,)
            for ci in itertools.product(*[range(shape[q]) for q in cdims]):
                idx = [None] * len(shape)
                for q, v in zip(sdims, si):
                    idx[q] = v
                for q, v in zip(cdims, ci):
                    idx[q] = v
                lab = "".join("[%s]" % v for v in ci)
                a, b = self.at(t, *idx), f(*idx)
                if flags:
                    # an untouched element is the same value with the same nan/inf flags
                    a, b = as_scalar(a), as_scalar(b)
                    if a.v is b.v and a.nan is b.nan and a.inf is b.inf:
                        CTX.oblige(name + lab, TRUE)
                        continue
                self.same(name + lab, a, b, tol, scale)

    def attempt(self, f, *exc):
        """-> (raised?, value)"""
        try:
            return False, f()
        except exc:
            return True, None

    def fail(self, name, msg=""):
        CTX.oblige(name, FALSE)
        raise Infeasible()

    def unreachable(self, name):
        self.fail(name)

    def snapshot(self, t):
        """value of a tensor now, to state that it is not modified"""
        rd = t.store.reader(True)
        fn, cache = t.store._fn, t.store.cache
        view = t._view
        n = type(t)(None, t._shape, t._dtype, store=X.Store(lambda i: fn(i), t.store.shape), view=view)
        return n

    def unchanged(self, name, t, snap):
        if t._shape != snap._shape:
            self.same_shape(name, t, [X.wrapdim(d) for d in snap._shape])
        sh = [X.wrapdim(d) for d in snap._shape]

        self.same_t(name, t, sh, lambda *i: self.at(snap, *i), flags=True)

    def tmp(self, name):
        return "/virtual/" + name

    def note(self, s):
        CTX.notes.add(s)

    def bounded(self, s):
        CTX.bounded.add(s)


def quat_mat(w, x, y, z, A):
    """rotation matrix of a unit quaternion; A provides add/sub/mul/scale on terms"""
    def m(a, b):
        return A.scale(2, A.mul(a, b))
    one = R1
    return [[A.sub(one, A.add(m(y, y), m(z, z))), A.sub(m(x, y), m(w, z)), A.add(m(x, z), m(w, y))],
            [A.add(m(x, y), m(w, z)), A.sub(one, A.add(m(x, x), m(z, z))), A.sub(m(y, z), m(w, x))],
            [A.sub(m(x, z), m(w, y)), A.add(m(y, z), m(w, x)), A.sub(one, A.add(m(x, x), m(y, y)))]]


# ====================================================================== concrete
class Tri(object):
    """True / False / undecided within tolerance"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        raise TypeError("use c.and_/c.or_/... on contract conditions")


def tri(x):
    if isinstance(x, Tri):
        return x.v
    return builtins.bool(x)


class ConC(object):
    sym = False

    def __init__(self, rng, profile, forced=None, tier="quick"):
        import numpy
        import torch
        self.rng = rng
        self.profile = profile
        self.forced = forced or {}
        self.torch = torch
        self.np = numpy
        self.pi = math.pi
        self.tier = tier
        self.failures = []
        self.nchecks = 0
        self.inputs = {}
        self._tmp = None

    def mod(self, name):
        import importlib
        return importlib.import_module("xrd_simulator." + name)

    # ---------------------------------------------------------------- inputs
    def dim(self, name, lo=0, hi=None):
        if name in self.forced:
            v = builtins.int(self.forced[name])
            if v < lo or v > 12:
                raise Skip()
        else:
            opts = [lo, lo + 1, lo + 1, lo + 2, lo + 3, lo + 5]
            v = self.rng.choice(opts)
            if self.profile % 4 == 3:
                v = max(lo, 1)
            if self.profile % 8 == 6:
                v = lo
        if hi is not None:
            v = min(v, hi)
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, near=None):
        if name in self.forced:
            v = builtins.int(self.forced[name])
        else:
            if near is not None:
                lo, hi = near
            l = -5 if lo is None else lo
            h = (l + 10) if hi is None else hi
            if h < l:
                raise Skip()
            v = self.rng.randint(builtins.int(l), builtins.int(h))
        self.inputs[name] = v
        return v

    def _draw(self, lo, hi, open):
        r = self.rng
        l = -10.0 if lo is None else float(lo)
        h = (l + 20.0 if lo is not None else 10.0) if hi is None else float(hi)
        if lo is None and hi is not None:
            l = h - 20.0
        p = r.random()
        if self.profile % 4 == 1 and p < 0.45:
            c = [x for x in (0.0, 1.0, -1.0, 0.5, l, h) if (l < x < h if open else l <= x <= h)]
            if c:
                return r.choice(c)
        if self.profile % 4 == 2 and p < 0.5 and l <= 0 <= h:
            return r.uniform(max(l, -1.0), min(h, 1.0))
        v = r.uniform(l, h)
        if open and (v <= l or v >= h):
            v = (l + h) / 2
        return v

    def real(self, name, lo=None, hi=None, open=False, near=None):
        if name in self.forced and self.forced[name] is not None:
            v = float(self.forced[name])
        else:
            v = self._draw(*(near or (lo, hi)), open)
        if lo is not None and (v < lo or (open and v <= lo)):
            raise Skip()
        if hi is not None and (v > hi or (open and v >= hi)):
            raise Skip()
        self.inputs[name] = v
        return v

    def bool(self, name):
        v = builtins.bool(self.forced[name]) if name in self.forced else self.rng.random() < 0.5
        self.inputs[name] = v
        return v

    def text(self, name, samples=()):
        v = self.rng.choice(list(samples))
        self.inputs[name] = v
        return v

    def _lib(self, a, lib):
        return self.torch.tensor(a.tolist(), dtype=self._tdt(a)).reshape(a.shape) if lib == "torch" else a

    def _tdt(self, a):
        return {"f": self.torch.float64, "i": self.torch.int64, "b": self.torch.bool}[a.dtype.kind]

    def ten(self, name, shape, lo=None, hi=None, open=False, lib="torch", dtype=None, distinct=False, where=None, near=None):
        np = self.np
        if near is not None:
            lo, hi = near
        shape = tuple(builtins.int(d) for d in shape)
        kind = {None: "f", "float": "f", "int": "i", "bool": "b"}[dtype]
        a = np.zeros(shape, dtype={"f": float, "i": builtins.int, "b": builtins.bool}[kind])
        for idx in itertools.product(*[range(d) for d in shape]):
            f = self.forced.get((name,) + idx)
            if kind == "f":
                a[idx] = float(f) if f is not None else self._draw(lo, hi, open)
            elif kind == "i":
                l = 0 if lo is None else builtins.int(lo)
                h = l + 10 if hi is None else builtins.int(hi)
                if h < l:
                    raise Skip()
                a[idx] = builtins.int(f) if f is not None else self.rng.randint(l, h)
            else:
                a[idx] = builtins.bool(f) if f is not None else self.rng.random() < 0.5
        if kind == "f":
            self._alike(a)
        self.inputs[name] = a.tolist()
        if where is not None:
            for idx in itertools.product(*[range(d) for d in shape]):
                if tri(where(lambda *i: a[tuple(builtins.int(q) for q in i)].item(), *idx)) is not True:
                    raise Skip()
        return self._lib(a, lib)

    def _alike(self, a):
        """some of the runs: rows that are nearly or exactly the same"""
        if self.profile % 8 != 4 or self.forced or a.ndim < 2 or a.shape[0] < 2 or self.rng.random() < 0.4:
            return False
        s = self.rng.choice([0.0, 10.0 ** self.rng.uniform(-6, -1), 10.0 ** self.rng.uniform(-3, -1)])
        a[1:] = a[:1] * (1 - s) + a[1:] * s
        return True

    def unit(self, name, batch=(), lib="torch", n=3):
        np = self.np
        batch = tuple(builtins.int(d) for d in batch)
        a = np.zeros(batch + (n,))
        for idx in itertools.product(*[range(d) for d in batch]):
            fs = [self.forced.get((name,) + idx + (q,)) for q in range(n)]
            if all(f is not None for f in fs) and sum(f * f for f in fs) > 1e-12:
                v = np.array(fs, float)
            elif self.profile % 4 == 1 and self.rng.random() < 0.5:
                v = np.zeros(n)
                v[self.rng.randrange(n)] = self.rng.choice([1.0, -1.0])
                if self.rng.random() < 0.3:
                    v[self.rng.randrange(n)] += 10.0 ** self.rng.uniform(-4, -1)
            else:
                v = np.array([self.rng.gauss(0, 1) for _ in range(n)])
            a[idx] = v / np.linalg.norm(v)
        if batch and self._alike(a):
            a /= np.linalg.norm(a, axis=-1, keepdims=True)
        self.inputs[name] = a.tolist()
        from . import search
        search.UNITS.add((name, batch, n))
        return self._lib(a, lib)

    def rot(self, name, batch=(), lib="torch"):
        np = self.np
        q = np.asarray(self.unit(name, batch, "np", 4))
        m = np.zeros(q.shape[:-1] + (3, 3))
        for idx in itertools.product(*[range(d) for d in q.shape[:-1]]):
            w, x, y, z = q[idx]
            m[idx] = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                      [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                      [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
        return self._lib(m, lib)

    def const(self, x, lib="torch"):
        np = self.np
        a = np.array(x)
        return self._lib(a, lib)

    def pick(self, name, options):
        options = list(options)
        v = None
        for k in range(len(options)):
            if self.forced.get(("pick." + name, k)):
                v = k
                break
        if v is None:
            v = self.rng.randrange(len(options))
        self.inputs["pick." + name] = v
        return options[v]

    def fnten(self, f, shape, lib="torch", dtype=None):
        np = self.np
        shape = tuple(builtins.int(d) for d in shape)
        kind = {None: float, "float": float, "int": builtins.int, "bool": builtins.bool}[dtype]
        a = np.zeros(shape, dtype=kind)
        for idx in itertools.product(*[range(d) for d in shape]):
            a[idx] = f(*idx)
        return self._lib(a, lib)

    # ---------------------------------------------------------------- access
    def at(self, t, *idx):
        if isinstance(t, (builtins.int, float, builtins.bool)):
            if idx:
                raise Violation("rank", "scalar where a tensor was expected")
            return t
        if isinstance(t, (list, tuple)):
            t = self.np.array(t)
        if len(t.shape) != len(idx):
            raise Violation("rank", "rank %d where %d was expected" % (len(t.shape), len(idx)))
        v = t[tuple(builtins.int(i) for i in idx)] if idx else t
        if hasattr(v, "item"):
            v = v.item()
        return v

    def shape(self, t):
        return tuple(builtins.int(d) for d in t.shape)

    def each(self, *dims, name="i"):
        tot = 1
        for d in dims:
            tot *= builtins.int(d)
        it = itertools.product(*[range(builtins.int(d)) for d in dims])
        if tot > 400:
            al = list(it)
            it = [al[self.rng.randrange(len(al))] for _ in range(400)]
        for idx in it:
            yield idx[0] if len(idx) == 1 else idx

    # ---------------------------------------------------------------- logic / math
    def b(self, x):
        return x

    def and_(self, *xs):
        vs = [tri(x) for x in xs]
        if any(v is False for v in vs):
            return Tri(False)
        return Tri(None) if any(v is None for v in vs) else Tri(True)

    def or_(self, *xs):
        vs = [tri(x) for x in xs]
        if any(v is True for v in vs):
            return Tri(True)
        return Tri(None) if any(v is None for v in vs) else Tri(False)

    def not_(self, x):
        v = tri(x)
        return Tri(None if v is None else not v)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        a, b = tri(a), tri(b)
        return Tri(None if a is None or b is None else a == b)

    def _near(self, a, b, tol):
        if a == b and abs(a) == float("inf"):
            return True
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))

    def lt(self, a, b, tol=1e-9):
        a, b = self.num(a), self.num(b)
        if isinstance(a, builtins.int) and isinstance(b, builtins.int):
            return Tri(a < b)
        if a != a or b != b:
            return Tri(False)
        if self._near(a, b, tol):
            return Tri(None)
        return Tri(a < b)

    def le(self, a, b, tol=1e-9):
        a, b = self.num(a), self.num(b)
        if isinstance(a, builtins.int) and isinstance(b, builtins.int):
            return Tri(a <= b)
        if a != a or b != b:
            return Tri(False)
        if self._near(a, b, tol):
            return Tri(None)
        return Tri(a <= b)

    def gt(self, a, b, tol=1e-9):
        return self.lt(b, a, tol)

    def ge(self, a, b, tol=1e-9):
        return self.le(b, a, tol)

    def eq(self, a, b, tol=1e-9):
        a, b = self.num(a), self.num(b)
        if isinstance(a, builtins.int) and isinstance(b, builtins.int):
            return Tri(a == b)
        if a != a or b != b:
            return Tri(False)
        return Tri(self._near(a, b, tol * 10))

    def num(self, x):
        if hasattr(x, "item"):
            x = x.item()
        return x

    def ite(self, c, a, b):
        v = tri(c)
        if v is None:
            raise Skip()
        return a if v else b

    def fn(self, name, x):
        x = self.num(x)
        with self.np.errstate(all="ignore"):
            return float(getattr(self.np, {"acos": "arccos", "atan": "arctan", "asin": "arcsin"}.get(name, name))(x))

    def sqrt(self, x):
        return self.fn("sqrt", x)

    def sin(self, x):
        return self.fn("sin", x)

    def cos(self, x):
        return self.fn("cos", x)

    def acos(self, x):
        return self.fn("arccos", x)

    def atan(self, x):
        return self.fn("arctan", x)

    def exp(self, x):
        return self.fn("exp", x)

    def abs(self, x):
        return abs(self.num(x))

    def min(self, a, b):
        return min(self.num(a), self.num(b))

    def max(self, a, b):
        return max(self.num(a), self.num(b))

    def floor(self, x):
        return builtins.int(math.floor(self.num(x)))

    def finite(self, x):
        return math.isfinite(self.num(x))

    def isnan(self, x):
        x = self.num(x)
        return x != x

    def sum(self, dims, f, whole=False):
        dims = dims if isinstance(dims, (tuple, list)) else [dims]
        r = 0
        for idx in itertools.product(*[range(builtins.int(d)) for d in dims]):
            r = r + self.num(f(*idx))
        return r

    def sum_nonneg(self, d, f):
        return self.sum((d,), f)

    def count(self, dims, f):
        def g(*i):
            v = tri(f(*i))
            if v is None:
                raise Skip()
            return builtins.int(v)
        return self.sum(dims, g)

    nselected = count

    def find(self, d, f):
        return next((i for i in range(builtins.int(d)) if tri(f(i)) is True), 0)

    def forall(self, dims, f):
        dims = dims if isinstance(dims, (tuple, list)) else [dims]
        return self.and_(True, *[f(*idx) for idx in itertools.product(*[range(builtins.int(d)) for d in dims])])

    # ---------------------------------------------------------------- specification statements
    def assume(self, cond):
        if tri(cond) is not True:
            raise Skip()

    def ensure(self, name, cond, **k):
        self.nchecks += 1
        if tri(cond) is False:
            self.failures.append((name, "condition is false"))

    def use_pairs(self):
        pass

    def fork_arg(self):
        pass

    def loop(self, key, vars, inv, variant=None, check=None):
        pass

    def lemma(self, name, cond):
        self.ensure(name, cond)

    def cut(self, name, xs, facts, goal, use=True):
        self.ensure(name, goal(*[self.num(x) for x in xs]))

    def same(self, name, a, b, tol=None, scale=None):
        self.nchecks += 1
        a, b = self.num(a), self.num(b)
        if isinstance(a, Tri) or isinstance(b, Tri):
            a, b = tri(a), tri(b)
            if a is None or b is None:
                return
        tol = 1e-8 if tol is None else tol
        if isinstance(a, builtins.bool) or isinstance(b, builtins.bool):
            ok = builtins.bool(a) == builtins.bool(b)
        else:
            sc = (1 if scale is None else abs(self.num(scale))) + abs(a) + abs(b)
            if b != b or abs(b) == float("inf"):
                raise Skip()
            ok = a == a and abs(a - b) <= tol * sc
        if not ok:
            self.failures.append((name, "code gives %r, contract requires %r" % (a, b)))

    def same_shape(self, name, t, shape):
        self.nchecks += 1
        if tuple(t.shape) != tuple(builtins.int(d) for d in shape):
            raise Violation(name + ".shape", "shape %s, contract requires %s" % (tuple(t.shape), tuple(shape)))

    def same_t(self, name, t, shape, f, tol=None, scale=None):
        if not hasattr(t, "shape"):
            raise Violation(name + ".is-tensor", "got %r" % (t,))
        self.same_shape(name, t, shape)
        for idx in self.each(*shape) if len(shape) else [()]:
            if not isinstance(idx, tuple):
                idx = (idx,)
            self.same(name + "".join("[%d]" % v for v in idx), self.at(t, *idx), f(*idx), tol, scale)

    def attempt(self, f, *exc):
        try:
            return False, f()
        except exc as e:
            return True, None

    def fail(self, name, msg=""):
        raise Violation(name, msg)

    unreachable = fail

    def snapshot(self, t):
        return t.clone() if hasattr(t, "clone") else t.copy()

    def unchanged(self, name, t, snap):
        self.same_shape(name, t, tuple(snap.shape))
        a = t.detach().numpy() if hasattr(t, "detach") else t
        b = snap.detach().numpy() if hasattr(snap, "detach") else snap
        self.nchecks += 1
        if not self.np.array_equal(a, b, equal_nan=True):
            self.failures.append((name, "the argument was modified"))

    def tmp(self, name):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="vc_")
        return os.path.join(self._tmp, name)

    def close(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)

    def note(self, s):
        pass

    def bounded(self, s):
        pass


# ====================================================================== registry
CASES = {}


class Case(object):
    def __init__(self, prop, name, fn, functions, sym=True, concrete=True, samples=20, budget=20.0, bounded=None, max_paths=200, assumptions=()):
        self.prop, self.name, self.fn, self.functions = prop, name, fn, functions
        self.do_sym, self.do_con, self.samples, self.budget = sym, concrete, samples, budget
        self.bounded = bounded
        self.max_paths = max_paths
        self.assumptions = assumptions


def case(prop, functions, name=None, **kw):
    def deco(f):
        n = name or f.__name__
        CASES.setdefault(prop, []).append(Case(prop, n, f, functions, **kw))
        return f
    return deco
