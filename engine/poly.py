"""Ring / rational function normaliser used to discharge equalities.

A term is mapped to num/den with num a polynomial over atoms and den a product of
polynomial factors.  Boolean conditions become idempotent 0/1 indicator atoms, so equalities
of piecewise definitions are decided without enumerating cases.  Reductions used:
sqrt(a)^2 = a, |a|^2 = a^2, cos^2 = 1 - sin^2, angle addition, [c]^2 = [c], plus rules x^k = p
supplied with the hypotheses (unit vectors, unit quaternions, ...).
"""
import time
from fractions import Fraction
from math import gcd
from . import terms as T
from .terms import R0, R1, I0, I1


class TooBig(Exception):
    pass


LIMIT = 60000


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > 400000:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


ONE = {(): Fraction(1)}


def pkey(p):
    return tuple(sorted(p.items()))


class Rat(object):
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, d or {}


class Ring(object):
    def __init__(self, rules=None, angle_base=None, subst=None):
        self.atoms = {}        # key -> int
        self.info = []         # int -> (kind, payload)
        self.red = {}          # atom -> (exp, Rat)
        self.polys = {}        # poly key -> poly   (denominator factors)
        self.memo = {}
        self.payload = {}
        self.rules = rules or {}
        self.base = angle_base if angle_base is not None else {}
        self.sub = subst or {}

    # -------------------------------------------------- atoms
    def atom(self, key, red=None):
        a = self.atoms.get(key)
        if a is None:
            a = len(self.info)
            self.atoms[key] = a
            self.info.append(key)
            if red is not None:
                self.red[a] = None
                r = red()
                if r is not None:
                    self.red[a] = r
                else:
                    del self.red[a]
        return a

    def arat(self, a):
        r = self.red.get(a)
        if r is not None and r[0] == 1:
            return r[1]
        return Rat({((a, 1),): Fraction(1)})

    # -------------------------------------------------- rat ops
    def den_poly(self, d):
        r = ONE
        for k, e in d.items():
            p = self.polys[k]
            for _ in range(e):
                r = self.rmul_poly(r, p)
        return r

    def rmul_poly(self, p, q):
        """product reduced (only reductions without denominators)"""
        return pmul(p, q)

    def radd(self, a, b, k=1):
        if not a.n:
            return Rat({m: c * k for m, c in b.n.items()}, b.d) if k != 1 else b
        if not b.n:
            return a
        if a.d == b.d:
            return Rat(padd(a.n, b.n, k), a.d)
        l = dict(a.d)
        for f, e in b.d.items():
            if l.get(f, 0) < e:
                l[f] = e
        def up(x):
            n = x.n
            for f, e in l.items():
                for _ in range(e - x.d.get(f, 0)):
                    n = self.reduce_poly(pmul(n, self.polys[f]))
                    if isinstance(n, Rat):
                        raise TooBig()
            return n
        na, nb = up(a), up(b)
        return Rat(padd(na, nb, k), l)

    def rmul(self, a, b):
        if not a.n or not b.n:
            return Rat({})
        # cancel common factors: numerators equal to a denominator factor
        da, db = dict(a.d), dict(b.d)
        n1, n2 = a.n, b.n
        d = dict(da)
        for f, e in db.items():
            d[f] = d.get(f, 0) + e
        if d:
            for nm in (1, 2):
                nn = n1 if nm == 1 else n2
                if len(nn) > 1 or True:
                    k, c = self.fkey(nn)
                    if k is not None and d.get(k, 0) > 0:
                        d[k] -= 1
                        if not d[k]:
                            del d[k]
                        if nm == 1:
                            n1 = {(): c}
                        else:
                            n2 = {(): c}
        r = self.reduce(pmul(n1, n2))
        for f, e in d.items():
            r.d = dict(r.d)
            r.d[f] = r.d.get(f, 0) + e
        return self.cancel(r)

    def cancel(self, r):
        """cancel monomial denominators"""
        if not r.d or not r.n:
            return r if r.n else Rat({})
        d = dict(r.d)
        n = r.n
        ch = False
        for f in list(d):
            p = self.polys[f]
            if len(p) == 1:
                (m, c), = p.items()
                # m = single atom (denominators are kept as single atoms)
                a, e1 = m[0]
                lo = min((dict(mm).get(a, 0) for mm in n), default=0)
                k = min(lo, d[f])
                if k > 0:
                    nn = {}
                    for mm, cc in n.items():
                        dd = dict(mm)
                        dd[a] -= k
                        if not dd[a]:
                            del dd[a]
                        nn[tuple(sorted(dd.items()))] = cc
                    n = nn
                    d[f] -= k
                    if not d[f]:
                        del d[f]
                    ch = True
            else:
                k, c = self.fkey(n)
                if k == f:
                    n = {(): c}
                    d[f] -= 1
                    if not d[f]:
                        del d[f]
                    ch = True
        return Rat(n, d) if ch else r

    def fkey(self, p):
        """canonical key of a polynomial up to a constant -> (key, const)"""
        if not p:
            return None, 0
        items = sorted(p.items())
        c = items[0][1]
        k = tuple((m, v / c) for m, v in items)
        return k, c

    def rinv(self, r):
        """1 / r"""
        n = ONE
        for f, e in r.d.items():
            for _ in range(e):
                n = self.reduce_poly(pmul(n, self.polys[f]))
                if isinstance(n, Rat):
                    raise TooBig()
        if not r.n:
            a = self.atom(("inv0",))
            return Rat({((a, 1),): Fraction(1)})
        if len(r.n) == 1:
            (m, c), = r.n.items()
            d = {}
            for a, e in m:
                q = {((a, 1),): Fraction(1)}
                k, _ = self.fkey(q)
                self.polys[k] = q
                d[k] = e
            return self.cancel(Rat({mm: cc / c for mm, cc in n.items()}, d))
        # pull out common monomial content
        common = None
        for m in r.n:
            dm = dict(m)
            common = dm if common is None else {a: min(e, dm.get(a, 0)) for a, e in common.items() if dm.get(a, 0)}
        p = r.n
        d = {}
        if common:
            nn = {}
            for m, c in p.items():
                dd = dict(m)
                for a, e in common.items():
                    dd[a] -= e
                    if not dd[a]:
                        del dd[a]
                nn[tuple(sorted(dd.items()))] = c
            p = nn
            for a, e in common.items():
                q = {((a, 1),): Fraction(1)}
                k, _ = self.fkey(q)
                self.polys[k] = q
                d[k] = e
        k, c = self.fkey(p)
        self.polys[k] = {m: v / c for m, v in p.items()}
        d[k] = d.get(k, 0) + 1
        return self.cancel(Rat({mm: cc / c for mm, cc in n.items()}, d))

    # -------------------------------------------------- reductions
    def reduce_poly(self, p):
        r = self.reduce(p)
        return r.n if not r.d else r

    def reduce(self, p):
        if not self.red:
            return Rat(p)
        out = Rat({})
        todo = p
        guard = 0
        while True:
            clean, dirty = {}, []
            for m, c in todo.items():
                for a, e in m:
                    rd = self.red.get(a)
                    if rd is not None and e >= rd[0]:
                        dirty.append((m, c, a, e, rd))
                        break
                else:
                    clean[m] = c
            if not dirty:
                return self.radd(out, Rat(clean)) if out.n else Rat(clean)
            guard += 1
            if guard > 200 or (self.deadline is not None and time.time() > self.deadline):
                raise TooBig()
            acc = clean
            for m, c, a, e, (k, rep) in dirty:
                rest = tuple((x, y if x != a else y - k) for x, y in m if x != a or y > k)
                q = {}
                for mm, cc in rep.n.items():
                    t = mmul(rest, mm)
                    q[t] = q.get(t, 0) + cc * c
                if rep.d:
                    rr = self.reduce(q)
                    d = dict(rr.d)
                    for f, ee in rep.d.items():
                        d[f] = d.get(f, 0) + ee
                    out = self.radd(out, self.cancel(Rat(rr.n, d)))
                else:
                    for mm, cc in q.items():
                        v = acc.get(mm, 0) + cc
                        if v:
                            acc[mm] = v
                        else:
                            acc.pop(mm, None)
            if len(acc) > LIMIT:
                raise TooBig()
            todo = acc

    # -------------------------------------------------- conversion
    def key(self, r):
        return (pkey(r.n), tuple(sorted(r.d.items())))

    def const(self, c):
        return Rat({(): Fraction(c)} if c else {})

    deadline = None

    def conv(self, t):
        r = self.memo.get(t)
        if r is None:
            if self.deadline is not None and time.time() > self.deadline:
                raise TooBig()
            r = self._conv(t)
            self.memo[t] = r
        return r

    def _conv(self, t):
        op = t.op
        s = self.sub.get(t)
        if s is not None:
            return self.conv(s)
        if op == "const":
            return self.const(t.args[0])
        if op == "lin":
            r = self.const(t.args[0])
            for x, k in t.args[1]:
                r = self.radd(r, self.conv(x), Fraction(k))
            return r
        if op == "mul":
            r = None
            for b, e in t.args:
                x = self.conv(b)
                if e < 0:
                    x = self.rinv(x)
                for _ in range(abs(e)):
                    r = x if r is None else self.rmul(r, x)
            return r
        if op == "ite":
            a, b = self.conv(t.args[1]), self.conv(t.args[2])
            d = self.radd(a, b, -1)
            if not d.n:
                return a
            return self.radd(b, self.rmul(self.ind(t.args[0]), d))
        if op == "var":
            return self._named(t, ("var", t.args[0]))
        if op == "sum":
            binders, body = t.args
            br = self.conv(body)
            return self.arat(self.atom(("sum", tuple((v.args[0], n.id) for v, n in binders), self.key(br))))
        if op == "app":
            return self._app(t)
        raise TooBig()

    def _named(self, t, key):
        def red():
            rl = self.rules.get(t)
            if rl is None and t.op == "app":
                f = self.rules.get(t.args[0])
                if f is not None:
                    rl = f(*t.args[1:])
            if rl is None:
                return None
            k, rep = rl
            return (k, self.conv(rep))
        return self.arat(self.atom(key, red))

    def argkey(self, a):
        if a.sort == "R":
            return self.key(self.conv(a))
        if a.sort == "I":
            a2 = self.int_norm(a)
            return a2.id
        return self.bkey(a)

    def int_norm(self, a):
        if self.sub:
            return T.subst(a, self.sub)
        return a

    def _app(self, t):
        name = t.args[0]
        if name == "pi":
            return self.arat(self.atom(("pi",)))
        if name == "inv0":
            return self.arat(self.atom(("inv0",)))
        if name == "sqrt":
            x = self.conv(t.args[1])
            if not x.n:
                return x
            return self.arat(self.atom(("sqrt", self.key(x)), lambda: (2, x)))
        if name == "abs":
            x = self.conv(t.args[1])
            if not x.n:
                return x
            k, c = self.fkey(x.n)
            y = Rat({m: v / c for m, v in x.n.items()}, x.d)
            a = self.atom(("abs", self.key(y)), lambda: (2, self.rmul(y, y)))
            return self.rmul(self.const(abs(c)), self.arat(a))
        if name in ("sin", "cos"):
            return self.trig(name, t.args[1])
        if name in ("atan", "acos"):
            x = self.conv(t.args[1])
            a = self.atom((name, self.key(x)))
            y = t.args[1]
            if name == "atan":
                r = T.fn("sqrt", T.add(R1, T.powi(y, 2)))
                self.payload[a] = lambda: (self.conv(T.div(y, r)), self.conv(T.powi(r, -1)))
            else:
                self.payload[a] = lambda: (self.conv(T.fn("sqrt", T.sub(R1, T.powi(y, 2)))), self.conv(y))
            return self.arat(a)
        if name in ("floor", "round", "acos", "asin", "atan", "exp", "log", "root", "zsgn"):
            return self.arat(self.atom((name,) + tuple(self.argkey(a) for a in t.args[1:])))
        if name == "toreal":
            x = self.int_norm(t.args[1])
            tr = T.toreal(x)
            if tr is not t:
                return self.conv(tr)
            if x.op == "app":
                return self._named(t, ("int", x.args[0]) + tuple(self.argkey(a) for a in x.args[1:]))
            return self._named(t, ("int", x.id))
        if not any(a.sort == "R" for a in t.args[1:]) and self.sub:
            t2 = T.subst(t, self.sub)
            if t2 is not t:
                return self.conv(t2)
        return self._named(t, (name,) + tuple(self.argkey(a) for a in t.args[1:]))

    # angles
    def set_bases(self, ts):
        """lcm of the denominators of every base angle (monomial) over all trig arguments"""
        for s in T.subterms(ts):
            if s.op == "app" and s.args[0] in ("sin", "cos"):
                try:
                    r = self.conv(s.args[1])
                except TooBig:
                    continue
                self.wide = max(self.wide, len(r.n))
                for m, k in r.n.items():
                    key = (m, tuple(sorted(r.d.items())))
                    q = Fraction(k).denominator
                    b = self.base.get(key, 1)
                    self.base[key] = b * q // gcd(b, q)
        self.memo.clear()

    wide = 0            # largest number of monomials in a trigonometric argument
    opaque = False      # keep sums of angles together instead of expanding them

    def trig(self, name, arg):
        r = self.conv(arg)
        if self.opaque and len(r.n) > 3:
            k = (pkey(r.n), tuple(sorted(r.d.items())))
            kn = (pkey({m: -v for m, v in r.n.items()}), tuple(sorted(r.d.items())))
            flip = kn < k
            sa = self.atom(("sin", min(k, kn)))
            if name == "sin":
                return self.radd(self.const(0), self.arat(sa), -1 if flip else 1)
            return self.arat(self.atom(("cos", min(k, kn)), lambda: (2, self.radd(self.const(1), self.rmul(self.arat(sa), self.arat(sa)), -1))))
        den = tuple(sorted(r.d.items()))
        s, co = self.const(0), self.const(1)
        for m, k in sorted(r.n.items()):
            key = (m, den)
            if len(m) == 1 and m[0][1] == 1 and not den and self.info[m[0][0]] == ("pi",) and (2 * k).denominator == 1:
                q = int(2 * k) % 4
                sn, cn = [(0, 1), (1, 0), (0, -1), (-1, 0)][q]
                sn, cn = self.const(sn), self.const(cn)
                s, co = (self.radd(self.rmul(s, cn), self.rmul(co, sn)),
                         self.radd(self.rmul(co, cn), self.rmul(s, sn), -1))
                continue
            L = self.base.get(key, 1)
            n = Fraction(k) * L
            if n.denominator != 1 or abs(n) > 24:
                # not expressible over the base: opaque
                q = Fraction(abs(k))
                n = 1 if k > 0 else -1
            else:
                q = Fraction(1, L)
                n = int(n)
            pl = self.payload.get(m[0][0]) if len(m) == 1 and m[0][1] == 1 and not den and q == 1 else None
            if pl is not None:
                s1, c1 = pl()
            else:
                sa = self.atom(("sin", key, q))
            ca = None if pl is not None else self.atom(("cos", key, q), lambda: (2, self.radd(self.const(1), self.rmul(self.arat(sa), self.arat(sa)), -1)))
            if pl is None:
                s1, c1 = self.arat(sa), self.arat(ca)
            sgn = -1 if n < 0 else 1
            sn, cn = self.const(0), self.const(1)
            for _ in range(abs(n)):
                sn, cn = (self.radd(self.rmul(sn, c1), self.rmul(cn, s1)),
                          self.radd(self.rmul(cn, c1), self.rmul(sn, s1), -1))
            if sgn < 0:
                sn = self.radd(self.const(0), sn, -1)
            s, co = (self.radd(self.rmul(s, cn), self.rmul(co, sn)),
                     self.radd(self.rmul(co, cn), self.rmul(s, sn), -1))
        return s if name == "sin" else co

    # conditions
    def ind(self, c):
        """indicator (0/1) of a boolean term"""
        if c is T.TRUE:
            return self.const(1)
        if c is T.FALSE:
            return self.const(0)
        if c.op == "not":
            return self.radd(self.const(1), self.ind(c.args[0]), -1)
        if c.op == "and":
            r = self.const(1)
            for x in c.args:
                r = self.rmul(r, self.ind(x))
            return r
        if c.op == "or":
            r = self.const(1)
            for x in c.args:
                r = self.rmul(r, self.radd(self.const(1), self.ind(x), -1))
            return self.radd(self.const(1), r, -1)
        if c.op == "ite":
            i = self.ind(c.args[0])
            a, b = self.ind(c.args[1]), self.ind(c.args[2])
            return self.radd(b, self.rmul(i, self.radd(a, b, -1)))
        k = self.litkey(c)
        if k is True:
            return self.const(1)
        if k is False:
            return self.const(0)
        neg, key = k
        a = self.atom(("ind", key), None)
        if a not in self.red:
            self.red[a] = (2, Rat({((a, 1),): Fraction(1)}))
        r = self.arat(a)
        if neg:
            r = self.radd(self.const(1), r, -1)
        return r

    def litkey(self, c):
        """-> (negated, key) or True/False"""
        if c.op == "lt0":
            r = self.conv(c.args[0])
            if not r.n:
                return False
            if len(r.n) == 1 and () in r.n and not r.d:
                return r.n[()] < 0
            k, co = self.fkey(r.n)
            return False, ("lt0", 1 if co > 0 else -1, k, tuple(sorted(r.d.items())))
        if c.op == "eq0":
            d = c.args[0]
            if d.sort == "I":
                d = T.subst(d, self.sub) if self.sub else d
                e = T.eq(d, I0)
                if e.op == "const":
                    return T.cval(e)
                return False, ("ieq", e.id)
            r = self.conv(d)
            if not r.n:
                return True
            if len(r.n) == 1 and () in r.n:
                return False
            k, co = self.fkey(r.n)
            return False, ("eq0", k)
        if c.op == "le0":
            d = T.subst(c.args[0], self.sub) if self.sub else c.args[0]
            e = T.le(d, I0)
            if e.op == "const":
                return T.cval(e)
            n = T.not_(e)
            if n.op == "le0" and n.id < e.id:
                return True, ("ile", n.id)
            return False, ("ile", e.id)
        if c.op == "app":
            return False, ("b", c.args[0]) + tuple(self.argkey(a) for a in c.args[1:])
        if c.op == "var":
            return False, ("bv", c.args[0])
        raise TooBig()

    def bkey(self, c):
        return self.key(self.ind(c))

    def divide(self, p, h):
        """remainder of the polynomial p modulo h (multivariate division, graded lex order)"""
        if not h or not p:
            return p

        def order(m):
            return (sum(e for _, e in m), m)
        lm = max(h, key=order)
        lc = h[lm]
        ld = dict(lm)
        tail = {m: -c / lc for m, c in h.items() if m != lm}
        if not ld:
            return p
        todo, out = dict(p), {}
        steps = 0
        while todo:
            m = max(todo, key=order)
            c = todo.pop(m)
            dm = dict(m)
            if all(dm.get(a, 0) >= e for a, e in ld.items()):
                q = tuple(sorted((a, e - ld.get(a, 0)) for a, e in dm.items() if e - ld.get(a, 0)))
                r = self.reduce(pmul({q: c}, tail))
                if r.d:
                    raise TooBig()
                todo = padd(todo, r.n)
            else:
                out[m] = c
            steps += 1
            if steps > 20000 or len(todo) > LIMIT:
                raise TooBig()
        return out

    def is_zero(self, t):
        r = self.conv(t)
        return not r.n
