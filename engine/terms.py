"""Hash-consed first order terms over reals (R), integers (I) and booleans (B).

The smart constructors only apply identities that are valid in the field of
reals / the integers.  Division follows the usual "total function" reading:
x/0 is an unspecified real; every place where it could matter carries a NaN/Inf
flag in the element layer (see tensor.py) which must be discharged separately.
"""
from fractions import Fraction
import math

_TABLE = {}
_COUNT = [0]


class Term(object):
    __slots__ = ("op", "args", "sort", "id", "_fv", "__weakref__")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("truth value of a symbolic term")

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other


def _mk(op, args, sort):
    key = (op, args, sort)
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        _COUNT[0] += 1
        t.id = _COUNT[0]
        t._fv = None
        _TABLE[key] = t
    return t


def children(t):
    op = t.op
    if op in ("const", "var"):
        return ()
    if op == "lin":
        return tuple(x for x, _ in t.args[1])
    if op == "mul":
        return tuple(x for x, _ in t.args)
    if op == "app":
        return t.args[1:]
    if op == "sum":
        return tuple(n for _, n in t.args[0]) + (t.args[1],)
    return t.args


# ------------------------------------------------------------------ constants
def tofrac(x):
    """Exact rational for a python number; decimal literals and k/n are recovered."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if x == int(x) and abs(x) < 1e15:
        return Fraction(int(x))
    f = Fraction(repr(x))
    g = Fraction(x).limit_denominator(1000)
    if float(g) == x:
        return g
    return f


def R(x):
    return _mk("const", (tofrac(x),), "R")


def I(x):
    return _mk("const", (int(x),), "I")


TRUE = _mk("const", (True,), "B")
FALSE = _mk("const", (False,), "B")
R0, R1 = R(0), R(1)
I0, I1 = I(0), I(1)


def B(x):
    return TRUE if x else FALSE


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def var(name, sort="R"):
    return _mk("var", (name,), sort)


def num(x, sort):
    if isinstance(x, Term):
        return x
    return R(x) if sort == "R" else I(x)


# ------------------------------------------------------------------ arithmetic
def _lin_parts(t):
    """-> (const, {term: coef})"""
    if t.op == "const":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def _mk_lin(c, d, sort):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return R(c) if sort == "R" else I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    if sort == "R":
        c = Fraction(c)
        items = [(t, Fraction(k)) for t, k in items]
    else:
        c = int(c)
    return _mk("lin", (c, tuple(items)), sort)


def add(*ts):
    if not ts:
        return R0
    sort = "I"
    for t in ts:
        if t.sort == "R":
            sort = "R"
    c = 0
    d = {}
    for t in ts:
        if sort == "R" and t.sort == "I":
            t = toreal(t)
        k0, dd = _lin_parts(t)
        c = c + k0
        for x, k in dd.items():
            d[x] = d.get(x, 0) + k
    return _mk_lin(c, d, sort)


def scale(k, t):
    if t.sort == "I" and not (isinstance(k, int) or (isinstance(k, Fraction) and k.denominator == 1)):
        t = toreal(t)
    if t.sort == "I":
        k = int(k)
    if k == 0:
        return R0 if t.sort == "R" else I0
    if k == 1:
        return t
    c, d = _lin_parts(t)
    return _mk_lin(c * k, {x: v * k for x, v in d.items()}, t.sort)


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b)) if a.sort == b.sort else add(_r(a), neg(_r(b)))


def _r(t):
    return toreal(t) if t.sort == "I" else t


def _mul_parts(t):
    """-> (coef, {base: exp})"""
    if t.op == "const":
        return t.args[0], {}
    if t.op == "lin" and t.args[0] == 0 and len(t.args[1]) == 1:
        x, k = t.args[1][0]
        c, d = _mul_parts(x)
        return c * k, d
    if t.op == "mul":
        return 1, dict(t.args)
    return 1, {t: 1}


_SOS = {}


def is_sos(x):
    """syntactically a sum of squares (hence >= 0)"""
    r = _SOS.get(x)
    if r is None:
        r = False
        if x.op == "lin":
            r = x.args[0] >= 0 and all(k > 0 and is_sos(y) for y, k in x.args[1])
        elif x.op == "mul":
            r = all(e % 2 == 0 or is_sos(b) for b, e in x.args)
        elif x.op == "app":
            r = x.args[0] in ("sqrt", "abs", "exp", "pi")
        elif x.op == "const":
            r = x.args[0] >= 0
        _SOS[x] = r
    return r


def _mk_mul(c, d, sort):
    if c == 0:
        return R0 if sort == "R" else I0
    # merge exponentials
    ex = [(b, e) for b, e in d.items() if b.op == "app" and b.args[0] == "exp"]
    if len(ex) > 1 or (len(ex) == 1 and ex[0][1] != 1 and ex[0][1] != 0):
        s = R0
        for b, e in ex:
            s = add(s, scale(e, b.args[1]))
            del d[b]
        n = fn("exp", s)
        if is_const(n):
            c = c * cval(n)
        else:
            d[n] = d.get(n, 0) + 1
    items = []
    for b, e in d.items():
        if e == 0:
            continue
        # sqrt(x)^2 = x is left to the ring normaliser (needs x >= 0), but
        # is unconditionally fine for even powers of |x|
        if b.op == "app" and b.args[0] == "abs" and e % 2 == 0:
            k, dd = _mul_parts(powi(b.args[1], e))
            if isinstance(k, (int, Fraction)) and e > 0 or True:
                c = c * k
                for bb, ee in dd.items():
                    items.append((bb, ee))
            continue
        if b.op == "app" and b.args[0] == "sqrt" and abs(e) >= 2 and is_sos(b.args[1]):
            q = int(e / 2)
            k, dd = _mul_parts(powi(b.args[1], q))
            c = c * k
            items.extend(dd.items())
            if e - 2 * q:
                items.append((b, e - 2 * q))
            continue
        items.append((b, e))
    if len({b for b, _ in items}) != len(items):
        m = {}
        for b, e in items:
            m[b] = m.get(b, 0) + e
        items = [(b, e) for b, e in m.items() if e != 0]
    if not items:
        return R(c) if sort == "R" else I(c)
    if len(items) > 1 and sort == "R":
        # the sign of a factor with negative coefficients only goes to the front
        neg_ = [n for n, (b, e) in enumerate(items) if b.op == "lin" and b.args[0] <= 0 and all(k < 0 for _, k in b.args[1])]
        if neg_:
            for n in neg_:
                b, e = items[n]
                items[n] = (neg(b), e)
                if e % 2:
                    c = -c
            if len({b for b, _ in items}) != len(items):
                m = {}
                for b, e in items:
                    m[b] = m.get(b, 0) + e
                return _mk_mul(c, {b: e for b, e in m.items() if e != 0}, sort)
    items.sort(key=lambda p: p[0].id)
    if len(items) == 1 and items[0][1] == 1:
        t = items[0][0]
    else:
        t = _mk("mul", tuple(items), sort)
    return scale(c, t) if c != 1 else t


def mul(a, b):
    if a.sort != b.sort:
        a, b = _r(a), _r(b)
    sort = a.sort
    if a.op == "const":
        return scale(a.args[0], b)
    if b.op == "const":
        return scale(b.args[0], a)
    if sort == "I":
        # distribute: index arithmetic is kept expanded
        ca, da = _lin_parts(a)
        cb, db = _lin_parts(b)
        if len(da) + (ca != 0) > 1 or len(db) + (cb != 0) > 1:
            out = {}
            c = ca * cb
            for x, k in da.items():
                if cb:
                    out[x] = out.get(x, 0) + k * cb
                for y, l in db.items():
                    z = mul(x, y)
                    kz, dz = _lin_parts(z)
                    c += kz * k * l
                    for w, m in dz.items():
                        out[w] = out.get(w, 0) + k * l * m
            for y, l in db.items():
                if ca:
                    out[y] = out.get(y, 0) + l * ca
            return _mk_lin(c, out, "I")
    # push 0/1 indicator style ites together
    if a.op == "ite" and (a.args[1] in (R0, I0) or a.args[2] in (R0, I0)) and b.op != "ite":
        return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    if b.op == "ite" and (b.args[1] in (R0, I0) or b.args[2] in (R0, I0)):
        return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
    ca, da = _mul_parts(a)
    cb, db = _mul_parts(b)
    for x, e in db.items():
        da[x] = da.get(x, 0) + e
    return _mk_mul(ca * cb, da, sort)


def powi(a, n):
    n = int(n)
    if n == 0:
        return R1 if a.sort == "R" else I1
    if a.op == "const":
        if n < 0 and cval(a) == 0:
            return _mk("app", ("inv0",), "R")
        if a.sort == "I" and n > 0:
            return I(cval(a) ** n)
        return R(Fraction(cval(a)) ** n)
    if a.sort == "I":
        if n < 0:
            a = toreal(a)
        else:
            r = a
            for _ in range(n - 1):
                r = mul(r, a)
            return r
    if a.op == "ite":
        return ite(a.args[0], powi(a.args[1], n), powi(a.args[2], n))
    c, d = _mul_parts(a)
    return _mk_mul(Fraction(c) ** n, {x: e * n for x, e in d.items()}, a.sort)


def div(a, b):
    a, b = _r(a), _r(b)
    return mul(a, powi(b, -1))


def toreal(t):
    if t.sort == "R":
        return t
    if t.op == "const":
        return R(cval(t))
    if t.op == "lin":
        c, items = t.args
        return _mk_lin(Fraction(c), {toreal(x): Fraction(k) for x, k in items}, "R") \
            if not any(toreal(x).op in ("lin", "const") for x, _ in items) \
            else add(R(c), *[scale(k, toreal(x)) for x, k in items])
    if t.op == "mul":
        r = R1
        for x, e in t.args:
            r = mul(r, powi(toreal(x), e))
        return r
    if t.op == "ite":
        return ite(t.args[0], toreal(t.args[1]), toreal(t.args[2]))
    return _mk("app", ("toreal", t), "R")


# ------------------------------------------------------------------ integers from reals
_ASINT = {}


def _asint(d):
    """asint of a difference (up to a positive integer factor); None quickly for terms with real valued parts"""
    if d not in _ASINT:
        _ASINT[d] = asint(d)
    return _ASINT[d]


def asint(t):
    """the integer term equal to a syntactically integer valued real term, or None"""
    if t.sort == "I":
        return t
    if t.op == "const":
        v = cval(t)
        return I(int(v)) if v == int(v) else None
    if t.op == "app":
        return t.args[1] if t.args[0] == "toreal" else None
    if t.op == "ite":
        a = asint(t.args[1])
        b = asint(t.args[2]) if a is not None else None
        return ite(t.args[0], a, b) if b is not None else None
    if t.op == "lin":
        c, items = t.args
        if Fraction(c).denominator != 1:
            return None
        r = I(int(c))
        for x, k in items:
            y = asint(x) if Fraction(k).denominator == 1 else None
            if y is None:
                return None
            r = add(r, scale(int(k), y))
        return r
    if t.op == "mul":
        r = I1
        for b, e in t.args:
            y = asint(b) if e > 0 else None
            if y is None:
                return None
            r = mul(r, powi(y, e))
        return r
    return None


def floor(t):
    if t.sort == "I":
        return t
    if t.op == "const":
        return I(math.floor(cval(t)))
    if t.op == "app" and t.args[0] == "toreal":
        return t.args[1]
    if t.op == "ite":
        return ite(t.args[0], floor(t.args[1]), floor(t.args[2]))
    a = asint(t)
    if a is not None:
        return a
    if t.op == "lin":
        c, items = t.args
        ic, rc = I0, R0
        for x, k in items:
            a = asint(x) if k.denominator == 1 else None
            if a is not None:
                ic = add(ic, scale(int(k), a))
            elif k.denominator == 1 and x.op == "mul" and all(
                    b.op == "app" and b.args[0] == "toreal" and e > 0 for b, e in x.args):
                m = I1
                for b, e in x.args:
                    m = mul(m, powi(b.args[1], e))
                ic = add(ic, scale(int(k), m))
            else:
                rc = add(rc, scale(k, x))
        cf = math.floor(c)
        rest = add(rc, R(c - cf))
        if ic is not I0 or cf != 0:
            return add(ic, I(cf), floor(rest))
    if t.op == "mul" and all(b.op == "app" and b.args[0] == "toreal" and e > 0 for b, e in t.args):
        m = I1
        for b, e in t.args:
            m = mul(m, powi(b.args[1], e))
        return m
    return _mk("app", ("floor", t), "I")


def trunc(t):
    if t.sort == "I":
        return t
    a = asint(t)
    if a is not None:
        return a
    if t.op == "ite":
        return ite(t.args[0], trunc(t.args[1]), trunc(t.args[2]))
    f = floor(t)
    if is_sos(t):
        return f
    if f.op != "app" or f.args[0] != "floor":
        if "floor" not in _heads(f):
            return f
    return ite(le(R0, t), f, neg(floor(neg(t))))


def _heads(t, depth=3):
    s = set()
    if t.op == "app":
        s.add(t.args[0])
    if depth:
        for c in children(t):
            s |= _heads(c, depth - 1)
    return s


def rnd(t):
    if t.sort == "I":
        return t
    if t.op == "const":
        return I(round(cval(t)))
    f = floor(t)
    if "floor" not in _heads(f):
        return f
    if t.op == "lin":
        # pull integer parts out:  round(x + n) = round(x) + n  (ties excepted: half to even
        # depends on parity, so only pull out when exact ties are irrelevant -> not done)
        pass
    return _mk("app", ("round", t), "I")


NONNEG = set()        # integer variables declared nonnegative
BOUNDS = {}   # index var -> dim term (0 <= var < dim), filled by the engine


def idivmod(a, b):
    """floor div and mod of Int terms for b > 0 (callers guarantee)."""
    if a.op == "const" and b.op == "const":
        return I(cval(a) // cval(b)), I(cval(a) % cval(b))
    if b is I1:
        return a, I0
    if a.op == "app" and a.args[0] == "fdiv":
        # floor(floor(x/m)/b) = floor(x/(m*b)) for positive m, b  (m > 0 was established when the inner quotient was formed)
        x, m = a.args[1], a.args[2]
        q, _ = idivmod(x, mul(m, b))
        return q, _mk("app", ("fmod", a, b), "I")
    if a.op == "app" and a.args[0] == "fmod":
        x, m = a.args[1], a.args[2]
        cof = exact_quotient(m, b)
        if cof is not None:
            # m = cof*b with m, b > 0, hence cof > 0:  (x mod m) mod b = x mod b,  (x mod m) // b = (x // b) mod cof
            q, r = idivmod(x, b)
            return idivmod(q, cof)[1], r
    # split a = b*q + r syntactically
    q, r = I0, I0
    c, d = _lin_parts(a)
    for x, k in list(d.items()) + ([(I1, c)] if c else []):
        if b.op == "const":
            bb = cval(b)
            if x is I1:
                q = add(q, I(k // bb))
                r = add(r, I(k % bb))
            elif k % bb == 0:
                q = add(q, scale(k // bb, x))
            else:
                r = add(r, scale(k, x))
        else:
            cb, db = _mul_parts(b)
            cx, dx = _mul_parts(x)
            ok = cb in (1,) and all(dx.get(y, 0) >= e for y, e in db.items())
            if ok:
                rest = {y: dx.get(y, 0) - db.get(y, 0) for y in dx}
                q = add(q, scale(k, _mk_mul(cx, rest, "I")))
            else:
                r = add(r, scale(k, x))
    if in_range(r, b):
        return q, r
    if q is not I0:
        return add(q, _mk("app", ("fdiv", r, b), "I")), _mk("app", ("fmod", r, b), "I")
    return _mk("app", ("fdiv", a, b), "I"), _mk("app", ("fmod", a, b), "I")


def exact_quotient(m, b):
    """the polynomial q with m = q*b (integer coefficients), or None"""
    if m is b:
        return I1
    rest, q = m, I0
    _, db = _lin_parts(b)
    cb, _ = _lin_parts(b)
    lb = dict(db)
    if cb:
        lb[I1] = cb
    if not lb:
        return None

    def key(x):
        _, d = _mul_parts(x) if x is not I1 else (1, {})
        return (sum(d.values()), tuple(sorted(((y.id, e) for y, e in d.items()), reverse=True)))
    hb = max(lb, key=key)
    cbm, dbm = _mul_parts(hb) if hb is not I1 else (1, {})
    for _ in range(12):
        c, d = _lin_parts(rest)
        d = dict(d)
        if c:
            d[I1] = c
        if not d:
            return q
        hm = max(d, key=key)
        cm, dm = _mul_parts(hm) if hm is not I1 else (1, {})
        if not all(dm.get(y, 0) >= e for y, e in dbm.items()):
            return None
        k = Fraction(d[hm]) * cm / (Fraction(lb[hb]) * cbm)
        if k.denominator != 1:
            return None
        left = {y: e - dbm.get(y, 0) for y, e in dm.items()}
        t = _mk_mul(int(k), left, "I")
        q = add(q, t)
        rest = sub(rest, mul(t, b))
    return None


def in_range(r, b):
    """syntactic proof of 0 <= r < b"""
    if r.op == "const":
        if r.args[0] == 0:
            return True
        return b.op == "const" and 0 <= cval(r) < cval(b)
    d = BOUNDS.get(r)
    if d is not None and d is b:
        return True
    lo, hi = irange(r)
    if lo is not None and lo >= 0 and hi is not None and b.op == "const" and hi < cval(b):
        return True
    if r.op == "app" and r.args[0] == "fmod" and r.args[2] is b:
        return True
    # mixed radix  r = x*K + y with 0<=x<M, 0<=y<K and b = M*K
    if lo is not None and lo >= 0 and r.op == "lin" and b.op != "const":
        c, items = r.args
        for x, k in items:
            dx = BOUNDS.get(x)
            if dx is not None and isinstance(k, int) and k > 0:
                rest = sub(r, scale(k, x))
                if sub(scale(k, dx), b) is I0 and in_range(rest, I(k)):
                    return True
    return False


def irange(t):
    if t.op == "const":
        return cval(t), cval(t)
    if t in BOUNDS:
        d = BOUNDS[t]
        return 0, (cval(d) - 1 if d.op == "const" else None)
    if t.op == "lin":
        c, items = t.args
        lo, hi = c, c
        for x, k in items:
            a, b = irange(x)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi
    if t.op == "app" and t.args[0] == "fmod" and t.args[2].op == "const":
        return 0, cval(t.args[2]) - 1
    if t.op == "mul":
        if all((irange(b)[0] or -1) >= 0 for b, e in t.args):
            return 0, None
    return None, None


# ------------------------------------------------------------------ functions
PI = _mk("app", ("pi",), "R")


def fn(name, *args):
    x = args[0] if args else None
    if name in ("sqrt", "sin", "cos", "tan", "atan", "acos", "asin", "exp", "abs", "log"):
        if x.sort == "I" and name != "abs":
            x = toreal(x)
        if x.op == "ite" and name != "abs":
            return ite(x.args[0], fn(name, x.args[1]), fn(name, x.args[2]))
        r = _FN[name](x)
        if r is not None:
            return r
        return _mk("app", (name, x), x.sort)
    return _mk("app", (name,) + args, "R")


def _sqrt(x):
    if x.op == "const":
        v = cval(x)
        if v >= 0:
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return R(Fraction(a, b))
        return None
    c, d = _mul_parts(x)
    c = Fraction(c)
    # sqrt(c * y^2) = sqrt(c)*|y|
    out = R1
    rest = {}
    if c > 0:
        s = _sqrt(R(c))
        if s is not None:
            out = s
            c = Fraction(1)
    ch = False
    for b, e in d.items():
        if e % 2 == 0 and e != 0:
            out = mul(out, powi(fn("abs", b), e // 2))
            ch = True
        else:
            rest[b] = e
    if ch and (rest or c != 1):
        # only valid if the squared factor is nonzero or rest >= 0; sqrt(y^2 r) = |y| sqrt(r) holds for r>=0,
        # and for r<0 the original is undefined unless y = 0 -> keep original in that case
        if c < 0 or rest:
            return None
    if ch:
        r = _mk_mul(c, rest, "R")
        return mul(out, fn("sqrt", r)) if r is not R1 else out
    if out is not R1 and not rest and c == 1:
        return out
    return None


def _isneg_lead(x):
    c, d = _lin_parts(x)
    if not d:
        return c < 0
    t = min(d, key=lambda z: z.id)
    return d[t] < 0


def _sin(x):
    if x is R0:
        return R0
    if _isneg_lead(x):
        return neg(fn("sin", neg(x)))
    c, d = _lin_parts(x)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if t is PI:
            return {Fraction(1): R0, Fraction(1, 2): R1, Fraction(2): R0, Fraction(1, 6): R(Fraction(1, 2)),
                    Fraction(1, 4): div(fn("sqrt", R(2)), R(2)), Fraction(1, 3): div(fn("sqrt", R(3)), R(2))}.get(k)
        if t.op == "app" and t.args[0] == "atan":
            s = t.args[1]
            if k == 2:
                return div(scale(2, s), add(R1, powi(s, 2)))
            if k == 1:
                return div(s, fn("sqrt", add(R1, powi(s, 2))))
        if t.op == "app" and t.args[0] == "acos":
            s = t.args[1]
            if k == 1:
                return fn("sqrt", sub(R1, powi(s, 2)))
            if k == Fraction(1, 2):
                return fn("sqrt", scale(Fraction(1, 2), sub(R1, s)))
        if t.op == "app" and t.args[0] == "asin" and k == 1:
            return t.args[1]
    return None


def _cos(x):
    if x is R0:
        return R1
    if _isneg_lead(x):
        return fn("cos", neg(x))
    c, d = _lin_parts(x)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if t is PI:
            return {Fraction(1): R(-1), Fraction(1, 2): R0, Fraction(2): R1, Fraction(1, 3): R(Fraction(1, 2)),
                    Fraction(1, 4): div(fn("sqrt", R(2)), R(2)), Fraction(1, 6): div(fn("sqrt", R(3)), R(2))}.get(k)
        if t.op == "app" and t.args[0] == "atan":
            s = t.args[1]
            if k == 2:
                return div(sub(R1, powi(s, 2)), add(R1, powi(s, 2)))
            if k == 1:
                return powi(fn("sqrt", add(R1, powi(s, 2))), -1)
        if t.op == "app" and t.args[0] == "acos":
            s = t.args[1]
            if k == 1:
                return s
            if k == Fraction(1, 2):
                return fn("sqrt", scale(Fraction(1, 2), add(R1, s)))
        if t.op == "app" and t.args[0] == "asin" and k == 1:
            return fn("sqrt", sub(R1, powi(t.args[1], 2)))
    return None


def _abs(x):
    if x.op == "const":
        return R(abs(cval(x))) if x.sort == "R" else I(abs(cval(x)))
    if x.op == "ite":
        return ite(x.args[0], fn("abs", x.args[1]), fn("abs", x.args[2]))
    if x.op == "app" and x.args[0] in ("abs", "sqrt", "exp", "acos", "pi"):
        return x
    if _isneg_lead(x):
        return fn("abs", neg(x))
    c, d = _mul_parts(x)
    if len(d) > 1 or c != 1:
        r = R(abs(c)) if x.sort == "R" else I(abs(c))
        for b, e in d.items():
            r = mul(r, powi(fn("abs", b), e) if e % 2 else powi(b, e))
        return r
    if len(d) == 1:
        (b, e), = d.items()
        if e % 2 == 0:
            return x
        if e != 1:
            return powi(fn("abs", b), e)
    return None


def _exp(x):
    if x is R0:
        return R1
    return None


def _tan(x):
    return div(fn("sin", x), fn("cos", x))


def _atan(x):
    if x is R0:
        return R0
    if x is R1:
        return scale(Fraction(1, 4), PI)
    if _isneg_lead(x):
        return neg(fn("atan", neg(x)))
    return None


def _acos(x):
    if x is R1:
        return R0
    if x is R(-1):
        return PI
    if x is R0:
        return scale(Fraction(1, 2), PI)
    return None


def _asin(x):
    if x is R0:
        return R0
    return None


def _log(x):
    return R0 if x is R1 else None


_FN = dict(sqrt=_sqrt, sin=_sin, cos=_cos, abs=_abs, exp=_exp, tan=_tan, atan=_atan, acos=_acos,
           asin=_asin, log=_log)


def app(name, args, sort):
    return _mk("app", (name,) + tuple(args), sort)


def rpow(x, p):
    """x**p for a rational p, on the non-negative reals."""
    p = Fraction(p)
    if p.denominator == 1:
        return powi(x, int(p))
    if p.denominator == 2:
        return powi(fn("sqrt", x), int(p * 2))
    c, d = _mul_parts(x)
    return powi(_mk("app", ("root", x, I(p.denominator)), "R"), p.numerator)


# ------------------------------------------------------------------ booleans
def _norm_cmp(d):
    """scale by a positive factor to a canonical representative"""
    c, parts = _lin_parts(d)
    if d.sort == "R":
        t = min(parts, key=lambda z: z.id)
        k = abs(parts[t])
        return scale(Fraction(1) / k, d) if k != 1 else d
    g = 0
    for v in parts.values():
        g = math.gcd(g, abs(v))
    return d, g, c, parts


def _lift_ite(d):
    """comparison of a sum with exactly one ite summand: lift"""
    if d.op == "ite":
        return d, R1
    return None


def _clear(d):
    """multiply by the positive constant pi^n to remove negative powers of pi"""
    if d.sort != "R":
        return d
    e = 0
    for x, _ in (d.args[1] if d.op == "lin" else ((d, 1),)):
        if x.op == "mul":
            for b, k in x.args:
                if b is PI and k < e:
                    e = k
    return mul(d, powi(PI, -e)) if e and d.op != "lin" else (_mul_lin(d, powi(PI, -e)) if e else d)


def _mul_lin(d, f):
    r = scale(d.args[0], f)
    for x, k in d.args[1]:
        r = add(r, scale(k, mul(x, f)))
    return r


def lt(a, b):
    d = _clear(sub(a, b))
    if d.op == "const":
        return B(cval(d) < 0)
    if d.sort == "I":
        return le(add(a, I1), b)
    if d.op == "ite" :
        return ite(d.args[0], lt(d.args[1], R0), lt(d.args[2], R0))
    i = _asint(d)
    if i is not None:
        return le(add(i, I1), I0)
    return _mk("lt0", (_norm_cmp(d),), "B")


def le(a, b):
    d = _clear(sub(a, b))
    if d.op == "const":
        return B(cval(d) <= 0)
    if d.op == "ite":
        z = R0 if d.sort == "R" else I0
        return ite(d.args[0], le(d.args[1], z), le(d.args[2], z))
    if d.sort == "I":
        dd, g, c, parts = _norm_cmp(d)
        if g > 1:
            # g*x + c <= 0  <=>  x <= floor(-c/g)
            d = _mk_lin(-((-c) // g), {t: v // g for t, v in parts.items()}, "I")
        lo, hi = irange(d)
        if hi is not None and hi <= 0:
            return TRUE
        if lo is not None and lo > 0:
            return FALSE
        return _mk("le0", (d,), "B")
    i = _asint(d)
    if i is not None:
        return le(i, I0)
    return not_(_mk("lt0", (_norm_cmp(neg(d)),), "B"))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    d = _clear(sub(a, b))
    if d.op == "const":
        return B(cval(d) == 0)
    if d.op == "ite":
        z = R0 if d.sort == "R" else I0
        return ite(d.args[0], eq(d.args[1], z), eq(d.args[2], z))
    if d.sort == "R":
        i = _asint(d)
        if i is not None:
            return eq(i, I0)
    if d.op == "mul" and d.sort == "R" and len(d.args) > 1 and all(e > 0 for _, e in d.args):
        return or_(*[eq(x, R0) for x, _ in d.args])
    if d.sort == "I":
        dd, g, c, parts = _norm_cmp(d)
        if c % g:
            return FALSE
        t = min(parts, key=lambda z: z.id)
        if parts[t] < 0:
            g = -g
        d = _mk_lin(c // g, {t: v // g for t, v in parts.items()}, "I")
        lo, hi = irange(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return FALSE
    else:
        c, parts = _lin_parts(d)
        t = min(parts, key=lambda z: z.id)
        d = scale(Fraction(1) / parts[t], d) if parts[t] != 1 else d
        c, parts = _lin_parts(d)
        # toreal(int) comparisons go to Int
        if all(_int_valued(x) and k.denominator == 1 for x, k in parts.items()):
            if Fraction(c).denominator != 1:
                return FALSE
            z = add(I(c), *[scale(int(k), _unreal(x)) for x, k in parts.items()])
            return eq(z, I0)
    return _mk("eq0", (d,), "B")


def _int_valued(x):
    if x.op == "app" and x.args[0] == "toreal":
        return True
    if x.op == "mul":
        return all(b.op == "app" and b.args[0] == "toreal" and e > 0 for b, e in x.args)
    return False


def _unreal(x):
    if x.op == "app":
        return x.args[1]
    m = I1
    for b, e in x.args:
        m = mul(m, powi(b.args[1], e))
    return m


def ne(a, b):
    return not_(eq(a, b))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        d = a.args[0]     # int
        return le(sub(I1, d), I0)
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    if a.op == "ite":
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return _mk("not", (a,), "B")


def and_(*ts):
    s = {}
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == "and":
            for u in t.args:
                s[u] = 1
        else:
            s[t] = 1
    for t in s:
        if not_lit(t) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return _mk("and", tuple(sorted(s, key=lambda z: z.id)), "B")


def or_(*ts):
    s = {}
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.op == "or":
            for u in t.args:
                s[u] = 1
        else:
            s[t] = 1
    for t in s:
        if not_lit(t) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return _mk("or", tuple(sorted(s, key=lambda z: z.id)), "B")


def not_lit(t):
    if t.op == "not":
        return t.args[0]
    if t.op in ("lt0", "eq0", "app", "var", "le0", "const"):
        return not_(t)
    if t.op in ("and", "or", "ite"):
        return not_(t) if len(t.args) < 6 else _mk("not", (t,), "B")
    return _mk("not", (t,), "B")


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        a, b = _r(a), _r(b)
        if a is b:
            return a
    if a.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "le0" and _isneg_lead(c.args[0]):
        c2 = not_(c)
        if not (c2.op == "le0" and _isneg_lead(c2.args[0])) and c2.op != "const":
            return ite(c2, b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk("ite", (c, a, b), a.sort)


def minimum(a, b):
    return ite(le(a, b), a, b)


def maximum(a, b):
    return ite(le(a, b), b, a)


# ------------------------------------------------------------------ traversal
def subst(t, m, memo=None):
    """replace terms (keys of m) by their images, bottom up through smart constructors"""
    if memo is None:
        memo = {}
    if not m:
        return t
    return _subst(t, m, memo, {k for k in m if k.op == "var"} if all(k.op == "var" for k in m) else None)


def _subst(t, m, memo, vs):
    r = m.get(t)
    if r is not None:
        return r
    if t.op in ("const", "var"):
        return t
    if vs is not None and not (free_vars(t) & vs):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    rec = lambda x: _subst(x, m, memo, vs)
    r = rebuild(t, rec)
    memo[t] = r
    return r


def rebuild(t, rec):
    op = t.op
    if op == "lin":
        c, items = t.args
        ts = [R(c) if t.sort == "R" else I(c)]
        for x, k in items:
            ts.append(scale(k, rec(x)))
        return add(*ts)
    if op == "mul":
        r = R1 if t.sort == "R" else I1
        for x, e in t.args:
            y = rec(x)
            r = mul(r, powi(y, e) if e != 1 else y)
        return r
    if op == "app":
        n = t.args[0]
        a = tuple(rec(x) for x in t.args[1:])
        if n in _FN:
            return fn(n, *a)
        if n == "toreal":
            return toreal(a[0])
        if n == "floor":
            return floor(a[0])
        if n == "round":
            return rnd(a[0])
        if n in ("fdiv", "fmod"):
            q, r = idivmod(*a)
            return q if n == "fdiv" else r
        if n == "root":
            return _mk("app", ("root",) + a, "R")
        h = APP_HOOK.get(n)
        if h is not None:
            return h(*a)
        return _mk("app", (n,) + a, t.sort)
    if op == "lt0":
        return lt(rec(t.args[0]), R0)
    if op == "le0":
        return le(rec(t.args[0]), I0)
    if op == "eq0":
        d = rec(t.args[0])
        return eq(d, R0 if d.sort == "R" else I0)
    if op == "not":
        return not_(rec(t.args[0]))
    if op == "and":
        return and_(*[rec(x) for x in t.args])
    if op == "or":
        return or_(*[rec(x) for x in t.args])
    if op == "ite":
        c = rec(t.args[0])
        if c is TRUE:
            return rec(t.args[1])
        if c is FALSE:
            return rec(t.args[2])
        return ite(c, rec(t.args[1]), rec(t.args[2]))
    if op == "sum":
        binders, body = t.args
        return SUM_HOOK[0](tuple((v, rec(n)) for v, n in binders), rec(body))
    raise NotImplementedError(op)


APP_HOOK = {}
SUM_HOOK = [None]


def free_vars(t):
    if t._fv is not None:
        return t._fv
    if t.op == "var":
        r = frozenset((t,))
    elif t.op == "const":
        r = frozenset()
    elif t.op == "sum":
        bs = frozenset(v for v, _ in t.args[0])
        r = frozenset().union(*[free_vars(n) for _, n in t.args[0]]) | (free_vars(t.args[1]) - bs)
    else:
        r = frozenset().union(*[free_vars(c) for c in children(t)]) if children(t) else frozenset()
    t._fv = r
    return r


def subterms(ts):
    seen = set()
    stack = list(ts)
    out = []
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        out.append(t)
        stack.extend(children(t))
    return out


def size(t):
    return len(subterms([t]))


def show(t, depth=8):
    if depth == 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    op = t.op
    if op == "const":
        return str(t.args[0])
    if op == "var":
        return t.args[0]
    if op == "lin":
        c, items = t.args
        out = [] if c == 0 else [str(c)]
        for x, k in items[:12]:
            out.append(s(x) if k == 1 else "%s*%s" % (k, s(x)))
        if len(items) > 12:
            out.append("...")
        return "(" + " + ".join(out) + ")"
    if op == "mul":
        return "*".join(s(x) if e == 1 else "%s^%d" % (s(x), e) for x, e in t.args)
    if op == "app":
        return "%s(%s)" % (t.args[0], ", ".join(s(x) for x in t.args[1:])) if len(t.args) > 1 else str(t.args[0])
    if op == "lt0":
        return "[%s < 0]" % s(t.args[0])
    if op == "le0":
        return "[%s <= 0]" % s(t.args[0])
    if op == "eq0":
        return "[%s = 0]" % s(t.args[0])
    if op == "not":
        return "!" + s(t.args[0])
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(s(x) for x in t.args[:8]) + (" .." if len(t.args) > 8 else "") + ")"
    if op == "ite":
        return "ite(%s, %s, %s)" % tuple(s(x) for x in t.args)
    if op == "sum":
        return "SUM{%s}(%s)" % (", ".join("%s<%s" % (s(v), s(n)) for v, n in t.args[0]), s(t.args[1]))
    return op
