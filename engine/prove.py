"""Discharging obligations: rewriting -> ring normaliser -> z3 -> cvc5."""
import time
import itertools
from fractions import Fraction
import sys
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
import z3
from . import terms as T
from .terms import TRUE, FALSE, R0, R1, I0, I1, R, I
from .poly import Ring, TooBig
from .core import CTX, dimterm

STATS = {"z3": 0, "cvc5": 0, "ring": 0, "rewrite": 0, "quick": 0, "quick_s": 0.0}


# ------------------------------------------------------------------ fact closure
def closure(ts, rounds=3, limit=400):
    facts = list(CTX.global_facts)
    seen = set()
    frontier = list(ts) + facts
    for _ in range(rounds):
        new = []
        for s in T.subterms(frontier):
            if s in seen:
                continue
            seen.add(s)
            if s.op == "app":
                bound = any(v.args[0].startswith(("$b", "$p", "$s")) for v in T.free_vars(s))
                if bound:
                    continue
                for f in list(CTX.triggers.get(s.args[0], ())) + CTX.path_triggers.get(s.args[0], []):
                    try:
                        x = f(*s.args[1:])
                    except RecursionError:
                        continue
                    if x is not TRUE and x not in facts:
                        facts.append(x)
                        new.append(x)
                        if len(facts) > limit:
                            return facts
        if not new and not CTX.use_pairs:
            break
        if CTX.use_pairs:
            n0 = len(facts)
            pair_facts(list(ts), facts)
            new.extend(facts[n0:])
            if not new or len(facts) > 2 * limit:
                break
        frontier = new
    return facts


def index_of(name, pos, bv, apps, m=None):
    """index tuples the applications of a pattern give (m: values of the template's parameters)"""
    out = []
    for a in apps.get(name, ()):
        args = a.args[1:]
        if len(args) > max(n for n, _ in pos.values()):
            js = tuple(args[pos[b][0]] if pos[b][1] is None else T.sub(args[pos[b][0]], T.subst(pos[b][1], m) if m else pos[b][1]) for b in bv)
            if js not in out:
                out.append(js)
    return out


def shifted(a, bv):
    """(index, offset) for an argument index + offset"""
    if a in bv:
        return a, None
    if a.op == "lin" and a.sort == "I":
        own = [(x, k) for x, k in a.args[1] if x in bv]
        if len(own) == 1 and own[0][1] == 1:
            off = T.sub(a, own[0][0])
            if not any(v in bv for v in T.free_vars(off)):
                return own[0][0], off
    return None, None


def patterns(body, bv):
    pats = {}
    for s in T.subterms([body]):
        if s.op == "app" and s.args[0] not in ("toreal", "floor"):
            pos = {}
            for n, a in enumerate(s.args[1:]):
                b, off = shifted(a, bv)
                if b is not None and (b not in pos or pos[b][1] is not None):
                    pos[b] = (n, off)
            if len(pos) == len(bv):
                old = pats.get(s.args[0])
                if old is None or (any(o is not None for _, o in old.values()) and all(o is None for _, o in pos.values())):
                    pats[s.args[0]] = pos
    return pats


def pair_facts(ts, facts):
    """bounds of extrema and emptiness of selections at every pair of parameters and index occurring in the terms"""
    apps = {}
    for s in T.subterms(ts + facts):
        if s.op == "app" and not any(v.args[0].startswith(("$b", "$p", "$s", "$m")) for v in T.free_vars(s)):
            apps.setdefault(s.args[0], []).append(s)

    def add(x):
        if x is not TRUE and x not in facts and len(facts) < 800:
            facts.append(x)
    for nm, e in list(CTX.pairs.items()):
        for a in apps.get(nm, ()):
            ps = a.args[1:]
            if e[0] == "ext":
                _, tb, pv, bv, dims, cmp_, _ = e
                for pn, pos in list(patterns(tb, bv).items())[:4]:
                    js_ = index_of(pn, pos, bv, apps, dict(zip(pv, ps)))
                    if pn.startswith("sel") and len(bv) == 1:
                        # positions of a selection: also the ranks of the indices at hand
                        sel = CTX.sel_by_k(int(pn[3:].split(".")[0]))
                        if len(sel.dims) == 1 and not sel.np:
                            for qn, qpos in list(patterns(sel.body, sel.bound).items())[:2]:
                                js_ = js_ + [(sel.rank((), j),) for j in index_of(qn, qpos, sel.bound, apps) if (sel.rank((), j),) not in js_]
                    for js in js_:
                        m = dict(zip(pv, ps))
                        m.update(zip(bv, js))
                        ds = [T.subst(dimterm(d), m) for d in dims]
                        add(T.implies(T.and_(*[T.and_(T.le(T.I0, j), T.lt(j, d)) for j, d in zip(js, ds)]), cmp_(a, T.subst(tb, m))))
            else:
                s = e[1]
                for pn, pos in list(patterns(s.body, s.bound).items())[:3]:
                    js_ = index_of(pn, pos, s.bound, apps, dict(zip(s.params, ps)))
                    if pn.startswith("sel") and len(s.bound) == 1:
                        sel = CTX.sel_by_k(int(pn[3:].split(".")[0]))
                        if len(sel.dims) == 1 and not sel.np:
                            for qn, qpos in list(patterns(sel.body, sel.bound).items())[:2]:
                                js_ = js_ + [(sel.rank((), j),) for j in index_of(qn, qpos, sel.bound, apps)]
                    for js in js_:
                        dms = [s.inst(d, ps, ()) for d in s.dims]
                        add(T.or_(T.not_(s.inst(s.body, ps, js)), T.lt(T.I0, a), *[T.or_(T.lt(j, T.I0), T.le(d, j)) for j, d in zip(js, dms)]))


# ------------------------------------------------------------------ z3 translation
def positive(t):
    """syntactically 0 < t"""
    if t.op == "const":
        return t.args[0] > 0
    if t.op == "app":
        return t.args[0] in ("exp", "pi")
    if t.op == "mul":
        return all(positive(b) for b, _ in t.args)
    if t.op == "lin":
        return t.args[0] >= 0 and all(k > 0 and positive(x) for x, k in t.args[1])
    return False


def _head(t):
    """symbol a factor is congruent under: application name with its constant arguments; '#id' for anything else"""
    if t.op == "app" and len(t.args) > 1:
        return "%s(%s)" % (t.args[0], ",".join(str(T.cval(a)) if a.op == "const" else "_" for a in t.args[1:]))
    if t.op in ("lin", "ite"):
        return "~"
    return "#%d" % t.id


class Z(object):
    def __init__(self, linear=False):
        self.linear = linear        # products are left uninterpreted
        self.memo = {}
        self.side = []
        self.apps = {}
        self.consts = {}
        self.n = 0
        self.trig = {}

    def c(self, t, sort):
        self.n += 1
        nm = "k%d" % self.n
        v = {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[sort](nm)
        self.consts[t] = v
        return v

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r

    def num(self, k, sort):
        if sort == "I":
            return z3.IntVal(int(k))
        k = Fraction(k)
        return z3.RealVal("%d/%d" % (k.numerator, k.denominator)) if k.denominator != 1 else z3.RealVal(k.numerator)

    def _tr(self, t):
        op = t.op
        if op == "const":
            if t.sort == "B":
                return z3.BoolVal(t.args[0])
            return self.num(t.args[0], t.sort)
        if op == "var":
            v = self.c(t, t.sort)
            if T.BOUNDS.get(t) is not None and not t.args[0].startswith(("$b", "$p", "$m", "$s", "$t")):
                self.side.append(v >= 0)
            return v
        if op == "lin":
            c, items = t.args
            xs = [self.tr(x) if k == 1 else self.num(k, t.sort) * self.tr(x) for x, k in items]
            if c:
                xs.append(self.num(c, t.sort))
            return z3.Sum(xs) if len(xs) > 1 else xs[0]
        if op == "mul" and self.linear:
            # uninterpreted, congruent in factors with the same head symbol
            # (several factors with the same symbol: a function of them in a fixed order, which loses only completeness)
            fs = sorted(((_head(b), e, b.id, b) for b, e in t.args), key=lambda f: f[:3])
            if all(f[0].startswith("#") for f in fs):
                return self.c(t, t.sort)
            key = "*" + "|".join("%s^%s" % (f[0], f[1]) for f in fs)
            fs = [f[3] for f in fs if not f[0].startswith("#")]
            g = z3.Function(key, *([z3.RealSort() if b.sort == "R" else z3.IntSort() for b in fs] + [z3.RealSort() if t.sort == "R" else z3.IntSort()]))
            self.n += 1
            v = g(*[self.tr(b) for b in fs])
            self.consts[t] = v
            return v
        if op == "mul":
            xs = []
            for b, e in t.args:
                y = self.tr(b)
                if e < 0:
                    key = ("inv", b)
                    iv = self.memo.get(key)
                    if iv is None:
                        iv = self.c(("inv", b), "R")
                        self.memo[key] = iv
                        self.side.append(z3.Or(y == 0, y * iv == 1))
                        if b.op == "app" and b.args[0] in ("sqrt", "abs", "exp"):
                            self.side.append(z3.Or(y == 0, iv > 0))
                    y = iv
                xs.extend([y] * abs(e))
            return z3.Product(xs) if len(xs) > 1 else xs[0]
        if op == "lt0":
            return self.tr(t.args[0]) < 0
        if op == "le0":
            return self.tr(t.args[0]) <= 0
        if op == "eq0":
            return self.tr(t.args[0]) == 0
        if op == "not":
            return z3.Not(self.tr(t.args[0]))
        if op == "and":
            return z3.And([self.tr(x) for x in t.args])
        if op == "or":
            return z3.Or([self.tr(x) for x in t.args])
        if op == "ite":
            return z3.If(self.tr(t.args[0]), self.tr(t.args[1]), self.tr(t.args[2]))
        if op == "sum":
            v = self.c(t, "R")
            self.memo[t] = v
            body = t.args[1]
            if positive(body):
                self.side.append(v >= 0)
                self.side.append(z3.Implies(z3.And([self.tr(n) > 0 for _, n in t.args[0]]), v > 0))
            elif T.is_sos(body):
                self.side.append(v >= 0)
            return v
        if op == "app":
            return self._app(t)
        raise NotImplementedError(op)

    def _app(self, t):
        name = t.args[0]
        S = self.side
        if name == "toreal":
            return z3.ToReal(self.tr(t.args[1]))
        uf = self.linear and len(t.args) > 1 and name not in ("sqrt", "abs", "sin", "cos", "acos", "asin", "atan", "exp", "floor", "round", "fdiv", "fmod", "root", "inv0")
        if uf:
            # native congruence closure
            srt = {"R": z3.RealSort, "I": z3.IntSort, "B": z3.BoolSort}
            g = z3.Function("%s/%d" % (name, len(t.args) - 1), *([srt[a.sort]() for a in t.args[1:]] + [srt[t.sort]()]))
            v = g(*[self.tr(a) for a in t.args[1:]])
            self.consts[t] = v
        else:
            v = self.c(t, t.sort)
        self.memo[t] = v
        if name == "pi":
            S += [v > z3.RealVal("3.14159265358"), v < z3.RealVal("3.14159265359")]
            return v
        if name == "inv0":
            return v
        args = [self.tr(a) for a in t.args[1:]]
        if name == "sqrt":
            S += [v >= 0, z3.Implies(args[0] > 0, v > 0)]
            a = t.args[1]
            if a.op == "lin" and a.args[0] == 1 and len(a.args[1]) == 1 and a.args[1][0][1] == -1:
                y = a.args[1][0][0]
                if y.op == "mul" and all(e % 2 == 0 or T.is_sos(b) for b, e in y.args):
                    h = T.R1
                    for b, e in y.args:
                        h = T.mul(h, T.powi(b, e // 2) if e % 2 == 0 else T.powi(T.fn("sqrt", b), e))
                    zh = self.tr(h)
                    S += [z3.Implies(z3.And(zh > -1, zh < 1), z3.And(v > 0, args[0] > 0)), v <= 1]
            if not self.linear:
                S += [z3.Or(args[0] < 0, v * v == args[0])]
        elif name == "abs":
            S += [v >= 0, z3.Or(v == args[0], v == -args[0])]
        elif name in ("sin", "cos"):
            o = "cos" if name == "sin" else "sin"
            w = self.tr(T.fn(o, t.args[1])) if T.fn(o, t.args[1]).op == "app" else None
            if w is not None and ("trig", t.args[1]) not in self.memo:
                self.memo[("trig", t.args[1])] = 1
                if not self.linear:
                    S += [v * v + w * w == 1]
                S += [v <= 1, v >= -1, w <= 1, w >= -1]
                pi, a = self.tr(T.PI), args[0]
                sn, cs = (v, w) if name == "sin" else (w, v)
                S += [z3.Implies(z3.And(a > 0, a < pi), sn > 0), z3.Implies(z3.And(a > -pi / 2, a < pi / 2), cs > 0),
                      z3.Implies(z3.And(a < 0, a > -pi), sn < 0)]
        elif name in ("acos", "asin", "atan"):
            pi = self.tr(T.PI)
            if name == "acos":
                S += [v >= 0, v <= pi, z3.Implies(args[0] >= 0, v <= pi / 2), z3.Implies(args[0] > 0, v < pi / 2),
                      z3.Implies(args[0] <= 0, v >= pi / 2), z3.Implies(args[0] < 1, v > 0), z3.Implies(args[0] > -1, v < pi)]
            elif name == "asin":
                S += [v >= -pi / 2, v <= pi / 2, z3.Implies(args[0] >= 0, v >= 0), z3.Implies(args[0] > 0, v > 0),
                      z3.Implies(args[0] < 0, v < 0), z3.Implies(args[0] <= 0, v <= 0), z3.Implies(args[0] < 1, v < pi / 2)]
            else:
                S += [v > -pi / 2, v < pi / 2, z3.Implies(args[0] >= 0, v >= 0), z3.Implies(args[0] > 0, v > 0),
                      z3.Implies(args[0] < 0, v < 0), z3.Implies(args[0] <= 0, v <= 0)]
            for u in list(self.apps.get(name, ())):
                a, b = u.args[1], t.args[1]
                za, zb = self.tr(a), args[0]
                zu = self.tr(u)
                inc = name != "acos"
                S += [z3.Implies(za < zb, (zu < v) if inc else (zu > v)), z3.Implies(za > zb, (zu > v) if inc else (zu < v)),
                      z3.Implies(za == zb, zu == v)]
                if name in ("atan", "asin"):
                    S += [z3.Implies(za + zb < 0, zu + v < 0), z3.Implies(za + zb > 0, zu + v > 0), z3.Implies(za + zb == 0, zu == -v)]
        elif name == "exp":
            S += [v > 0, z3.Implies(args[0] <= 0, v <= 1), z3.Implies(args[0] >= 0, v >= 1),
                  z3.Implies(args[0] < 0, v < 1), z3.Implies(args[0] > 0, v > 1), v >= 1 + args[0]]
            for u in list(self.apps.get(name, ())):
                zu, za = self.tr(u), self.tr(u.args[1])
                S += [z3.Implies(za < args[0], zu < v), z3.Implies(za > args[0], zu > v), z3.Implies(za == args[0], zu == v)]
        elif name.startswith("sel") and name.endswith(".0") and len(CTX.sel_by_k(int(name[3:-2])).dims) == 1:
            # the positions are enumerated in increasing order
            s = CTX.sel_by_k(int(name[3:-2]))
            ps = t.args[1:-1]
            n = self.tr(s.cnt(ps))
            for u in list(self.apps.get(name, ())):
                if u.args[1:-1] == ps:
                    zu, zi, zj = self.tr(u), self.tr(u.args[-1]), args[-1]
                    S += [z3.Implies(z3.And(0 <= zi, zi < zj, zj < n), zu < v), z3.Implies(z3.And(0 <= zj, zj < zi, zi < n), v < zu)]
        elif name == "floor":
            S += [z3.ToReal(v) <= args[0], args[0] < z3.ToReal(v) + 1]
        elif name == "round":
            S += [z3.ToReal(v) - args[0] <= z3.RealVal("1/2"), args[0] - z3.ToReal(v) <= z3.RealVal("1/2")]
        elif name in ("fdiv", "fmod"):
            a, b = t.args[1:]
            za, zb = args
            if name == "fdiv":
                r = self.tr(T.app("fmod", (a, b), "I"))
                S += [z3.Implies(zb > 0, z3.And(za == zb * v + r, 0 <= r, r < zb))] if not (self.linear and b.op != "const") else []
            else:
                q = T.app("fdiv", (a, b), "I")
                if q not in self.memo:
                    self.tr(q)
                zq = self.memo[q]
                S += [z3.Implies(zb > 0, z3.And(za == zb * zq + v, 0 <= v, v < zb))] if not (self.linear and b.op != "const") else []
        elif name == "root":
            p = T.cval(t.args[2])
            S += [z3.Implies(args[0] >= 0, v >= 0), z3.Implies(args[0] > 0, v > 0)]
            if not self.linear:
                pr = v
                for _ in range(p - 1):
                    pr = pr * v
                S += [z3.Implies(args[0] >= 0, pr == args[0])]
        l = self.apps.setdefault(name, [])
        if not uf and t.args[1:] and name not in ("abs", "sin", "cos", "acos", "asin", "atan", "exp"):
            for u in l[:40]:
                es = []
                for a, b in zip(u.args[1:], t.args[1:]):
                    if a is b:
                        continue
                    e = T.eq(a, b)
                    if e is FALSE:
                        es = None
                        break
                    if e is TRUE:
                        continue
                    es.append(self.tr(a) == self.tr(b))
                if es is None:
                    continue
                S.append(z3.Implies(z3.And(es) if es else z3.BoolVal(True), self.tr(u) == v))
        l.append(t)
        return v


def bounds_of(ts):
    out = []
    for v in set().union(*[T.free_vars(t) for t in ts]) if ts else ():
        d = T.BOUNDS.get(v)
        if d is not None and not v.args[0].startswith(("$b", "$p", "$m", "$s", "$t")):
            out.append(T.le(I0, v))
            out.append(T.lt(v, d))
    return out


def relevant(hyps, goal, rounds=3):
    """hypotheses transitively sharing a symbol with the goal"""
    def syms(t):
        s = set()
        for x in T.subterms([t]):
            if x.op == "var" and not x.args[0].startswith("$"):
                s.add(x)
            elif x.op == "var":
                s.add(x)
            elif x.op == "app" and x.args[0] not in ("toreal", "sqrt", "abs", "sin", "cos", "floor", "exp", "acos", "atan", "asin", "round", "pi", "fdiv", "fmod"):
                s.add(x.args[0])
        return s
    cur = syms(goal)
    left = [(h, syms(h)) for h in hyps]
    out = []
    for _ in range(rounds):
        nxt = []
        grown = set()
        for h, s in left:
            if s & cur:
                out.append(h)
                grown |= s
            else:
                nxt.append((h, s))
        left = nxt
        if not grown - cur:
            break
        cur |= grown
    return out


def abstract(goal, hyps):
    """generalisation: real linear combinations over a common set of atoms are replaced by fresh variables
    (a basis of their span); valid for all values of the fresh variables implies valid for the terms"""
    ts = [goal] + list(hyps)
    basis = []          # (vector dict atom->Fraction, fresh var), echelonised: pivot atom
    memo = {}
    used = [0]

    def vec(t):
        return {x: Fraction(k) for x, k in t.args[1]}

    def project(v):
        """-> (coefficients on basis vars, remainder)"""
        v = dict(v)
        co = {}
        for piv, b, comb in basis:
            k = v.get(piv)
            if k:
                for x, c in b.items():
                    n = v.get(x, 0) - k * c
                    if n:
                        v[x] = n
                    else:
                        v.pop(x, None)
                for y, c in comb.items():
                    co[y] = co.get(y, 0) + k * c
        return co, v

    def rec(t):
        r = memo.get(t)
        if r is None:
            if t.op in ("const", "var", "sum"):
                r = t
            else:
                r = T.rebuild(t, rec)
                if r.op == "lin" and r.sort == "R":
                    v, cx = {}, []
                    for x, k in r.args[1]:
                        if any(y.op == "lin" and y.sort == "R" or y.op == "var" and y.args[0].startswith("$g") for y in T.subterms([x])):
                            cx.append(T.scale(k, x))
                        else:
                            v[x] = Fraction(k)
                    if len(v) >= 3 and not any(x.args[0].startswith(("$s", "$b")) for x in T.free_vars(r)):
                        co, rest = project(v)
                        supp = set()
                        for _, b, _c in basis:
                            supp |= set(b)
                        if not co or (rest and set(rest) & supp):
                            # new direction
                            if co and set(rest) & supp or not co:
                                y = CTX.fresh("$g", "R")
                                piv = next(iter(sorted(rest, key=lambda x: x.id)))
                                k = rest[piv]
                                comb = {y: Fraction(1) / k}
                                for z, c in co.items():
                                    comb[z] = comb.get(z, 0) - c / k
                                nb = {x: c / k for x, c in rest.items()}
                                # keep reduced echelon form
                                for q in range(len(basis)):
                                    p2, b2, c2 = basis[q]
                                    kk = b2.get(piv)
                                    if kk:
                                        b3 = dict(b2)
                                        for x, c in nb.items():
                                            n = b3.get(x, 0) - kk * c
                                            if n:
                                                b3[x] = n
                                            else:
                                                b3.pop(x, None)
                                        c3 = dict(c2)
                                        for z, c in comb.items():
                                            n = c3.get(z, 0) - kk * c
                                            if n:
                                                c3[z] = n
                                            else:
                                                c3.pop(z, None)
                                        basis[q] = (p2, b3, c3)
                                basis.append((piv, nb, comb))
                                co, rest = {y: Fraction(1)}, {}
                        used[0] += 1
                        r = T.add(R(r.args[0]), *([T.scale(c, y) for y, c in co.items()] + [T.scale(c, x) for x, c in rest.items()] + cx))
            memo[t] = r
        return r
    hs = [rec(h) for h in hyps]
    g = rec(goal)
    if used[0] < 2 or not basis:
        return None
    return g, [h for h in hs if h is not TRUE]


_DEF = {}


class Prover(object):
    def __init__(self):
        self.qcache = {}

    # ------------------------------------------------------------ quick
    def quick(self, hyps, goal, timeout=1500):
        if goal is TRUE:
            return True
        if goal in hyps:
            return True
        STATS["quick"] += 1
        t0 = time.time()
        key = (goal, tuple(sorted(set(hyps), key=lambda h: h.id)))
        r = self.qcache.get(key)
        if r is None:
            r = self._z3(hyps, goal, timeout)[0] == "unsat"
            self.qcache[key] = r
        STATS["quick_s"] += time.time() - t0
        return r

    def quick_gen(self, hyps, goal, timeout):
        """quick, after linear generalisation"""
        if T.size(goal) <= 12:
            return False
        hs = relevant(list(hyps) + closure([goal] + list(hyps)), goal)
        ab = abstract(goal, hs)
        return ab is not None and self._z3(ab[1], ab[0], timeout, facts=False)[0] == "unsat"

    def _z3(self, hyps, goal, timeout, want_model=False, tactic=None, facts=True, rel=True, linear=False):
        hs = list(hyps)
        fs = closure([goal] + hs) if facts else []
        if rel:
            hs = relevant(hs + fs, goal)
        else:
            hs = hs + fs
        hs += bounds_of(hs + [goal])
        z = Z(linear)
        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        s.set("timeout", int(timeout))
        zs = [z.tr(h) for h in hs]
        zg = z3.Not(z.tr(goal))
        for x in zs:
            s.add(x)
        s.add(zg)
        i = 0
        for x in z.side:
            s.add(x)
        try:
            r = s.check()
        except z3.Z3Exception:
            return "unknown", None
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            m = s.model() if want_model else None
            if want_model:
                return "sat", (z, m)
            return "sat", None
        return "unknown", None

    def model(self, hyps, goal, timeout=5000):
        """try to find a counterexample: {Term: value}"""
        r, zm = self._z3(hyps, goal, timeout, want_model=True, rel=False)
        if r != "sat" or zm is None:
            return None
        z, m = zm
        out = {}
        for t, v in z.consts.items():
            if isinstance(t, tuple):
                continue
            val = m.eval(v, model_completion=True)
            out[t] = zval(val)
        return out

    # ------------------------------------------------------------ full
    def prove(self, ob, budget=20.0):
        t0 = time.time()
        st, be = self._prove(ob.hyps, ob.goal, time.time() + budget, 0)
        ob.status, ob.backend = st, be
        ob.time = time.time() - t0
        return st == "proved"

    def _prove(self, hyps, goal, deadline, depth, absd=False):
        if goal is TRUE:
            return "proved", "rewrite"
        if goal in hyps:
            return "proved", "rewrite"
        if time.time() > deadline:
            return "unknown", "timeout"
        if goal.op == "and":
            be = "rewrite"
            for g in goal.args:
                st, b = self._prove(hyps, g, deadline, depth + 1, absd)
                if st != "proved":
                    return st, b
                be = b if b != "rewrite" else be
            return "proved", be
        if goal.op == "or" and depth < 3 and self._z3(hyps, goal, 400, linear=True, rel=False)[0] == "unsat":
            return "proved", "z3-linear"
        if goal.op == "or":
            # assume the negation of all but the hardest disjunct
            ds = list(goal.args)
            def hard(d):
                return (d.op in ("and", "ite", "or"), d.op == "eq0" and d.args[0].sort == "R", T.size(d))
            ds.sort(key=hard)
            main = ds[-1]
            hy = list(hyps)
            for d in ds[:-1]:
                n = T.not_(d)
                hy.extend(n.args if n.op == "and" else [n])
            if FALSE in hy:
                return "proved", "rewrite"
            hy2, main2 = self.normalise(hy, main)
            if main2 is TRUE or FALSE in hy2:
                return "proved", "rewrite"
            st, b = self._prove(hy2, main2, deadline, depth + 1, absd) if main2 is not FALSE else ("unknown", "")
            if st == "proved":
                return st, b
            if self._z3(hyps, goal, 1000, linear=True, rel=False)[0] == "unsat":
                return "proved", "z3-linear"
            # contradiction among the hypotheses / other disjunct
            r, _ = self._z3(hyps, goal, min(8000, 1000 * max(1, deadline - time.time())))
            return ("proved", "z3") if r == "unsat" else (("refuted" if r == "sat" else "unknown"), "z3")
        hyps, goal = self.normalise(hyps, goal)
        if goal is TRUE or FALSE in hyps:
            return "proved", "rewrite"
        if goal.op in ("and", "or"):
            return self._prove(hyps, goal, deadline, depth + 1, absd)
        # ring
        if goal.op == "eq0" and goal.args[0].sort == "R":
            g2 = self.empty_selections(hyps, goal)
            if g2 is not goal:
                return self._prove(hyps, g2, deadline, depth + 1, absd)
            ics = self.int_cond(goal) if depth < 12 else None
            if ics is not None:
                r = self.split(hyps, goal, deadline, depth, ics, absd)
                if r is not None:
                    return r
            ites = depth < 12 and any(s.op == "ite" for s in T.subterms([goal]))
            if not ites and self.ring_zero([], goal.args[0], min(deadline, time.time() + 2.0)):
                STATS["ring"] += 1
                return "proved", "ring"
            if not ites and not absd and T.size(goal) > 12:
                ab = abstract(goal, hyps)
                if ab is not None:
                    st, b = self._prove(ab[1], ab[0], time.time() + 0.4 * max(0.5, deadline - time.time()), depth + 1, True)
                    if st == "proved":
                        return st, b + "+generalised"
            if self.ring_zero(hyps, goal.args[0], min(deadline, time.time() + 1.0) if ites else deadline):
                STATS["ring"] += 1
                return "proved", "ring"
            if self.sum_ext(hyps, goal.args[0], deadline, depth):
                return "proved", "ring+sum-extensionality"
            if ites:
                r = self.split(hyps, goal, deadline, depth, None, absd)
                if r is not None:
                    return r
        if goal.op == "eq0" and goal.args[0].sort == "I" and depth < 10 and self.count_ext(hyps, goal.args[0], deadline, depth):
            return "proved", "count-extensionality"
        # boolean equivalence shape / literal via ring indicator
        if goal.sort == "B" and goal.op not in ("eq0",):
            try:
                rg = self.ring(hyps, [goal])
                i = rg.radd(rg.const(1), rg.ind(goal), -1)
                if not i.n:
                    return "proved", "ring"
            except (TooBig, RecursionError):
                pass
        if T.size(goal) > 12 and CTX.use_pairs and self._z3(hyps, goal, 300, linear=True, rel=False, facts=False)[0] == "unsat":
            return "proved", "z3-linear"
        if (T.size(goal) > 12 or goal is FALSE) and self._z3(hyps, goal, 1000, linear=True, rel=False)[0] == "unsat":
            return "proved", "z3-linear"
        if not absd and T.size(goal) > 12:
            ab = abstract(goal, list(hyps) + closure([goal] + list(hyps)))
            if ab is not None:
                r, _ = self._z3(ab[1], ab[0], 3000, facts=False)
                if r == "unsat":
                    return "proved", "z3+generalised"
        r, _ = self._z3(hyps, goal, 3000)
        if r == "unsat":
            return "proved", "z3"
        first = r
        # case split on ite conditions
        if depth < 9:
            r2 = self.split(hyps, goal, deadline, depth, None, absd)
            if r2 is not None:
                return r2
        left = max(0.5, deadline - time.time())
        if first != "sat":
            r, _ = self._z3(hyps, goal, min(15000, 1000 * left), rel=False)
            if r == "unsat":
                return "proved", "z3"
            r2, _ = self._z3(hyps, goal, min(8000, 1000 * left), tactic="qfnra-nlsat" if self.pure_real(hyps, goal) else "qflra" if False else "smt")
            if r2 == "unsat":
                return "proved", "z3-nlsat"
            if r == "unknown" and self.cvc5(hyps, goal, min(10000, 1000 * left)):
                return "proved", "cvc5"
            return ("refuted" if r == "sat" else "unknown"), "z3"
        r, _ = self._z3(hyps, goal, min(10000, 1000 * left), rel=False)
        if r == "unsat":
            return "proved", "z3"
        return ("refuted" if r == "sat" else "unknown"), "z3"

    def split(self, hyps, goal, deadline, depth, c=None, absd=False):
        c = c if c is not None else self.pick_cond(goal, hyps)
        if c is None:
            return None
        be = "split"
        qt = 500 if c.op == "le0" or (c.op == "eq0" and c.args[0].sort == "I") else 150
        holds = self.quick(hyps, c, qt)
        forced = holds
        for lit in (c, T.not_(c)):
            if holds and lit is not c:
                continue
            lits = list(lit.args) if lit.op == "and" else [lit]
            if self.quick(hyps, T.not_(lit), qt):
                forced = True
                continue
            m = {c: TRUE, T.not_(c): FALSE} if lit is c else {c: FALSE, T.not_(c): TRUE}
            g2 = T.subst(goal, m)
            h2 = []
            for h in hyps:
                h = T.subst(h, m)
                if h is not TRUE:
                    h2.extend(h.args if h.op == "and" else [h])
            if FALSE in h2:
                continue
            h2 = h2 + lits
            if c.op in ("lt0", "eq0") and c.args[0].sort == "R":
                h2, g2 = self.signs(h2, g2, c)
                if g2 is TRUE or FALSE in h2:
                    continue
            st, b = self._prove(h2, g2, deadline, depth if forced else depth + 1, absd)
            if st != "proved":
                return st, b
            be = b
        return "proved", be + ("" if be.endswith("+split") else "+split")

    def signs(self, hyps, goal, c):
        """sign conditions on the polynomial of c (up to a constant factor) agree with each other: those of the goal are
        decided by those of the hypotheses"""
        ats = {x for x in T.subterms([goal] + list(hyps)) if x.op in ("lt0", "eq0") and x.args[0].sort == "R" and T.size(x) < 600}
        ats.discard(c)
        if not ats or len(ats) > 60:
            return hyps, goal
        rg = self.ring(hyps, [goal], time.time() + 1.0)

        def key(x):
            try:
                r = rg.conv(x.args[0])
                if r.d or not r.n or (len(r.n) == 1 and () in r.n):
                    return None
                k, co = rg.fkey(r.n)
                return k, (1 if co > 0 else -1)
            except (TooBig, RecursionError):
                return None
        kc = key(c)
        if kc is None:
            return hyps, goal
        same = {}
        for x in ats | {c}:
            k = key(x)
            if k is not None and k[0] == kc[0]:
                same[x] = k[1]
        if len(same) < 2:
            return hyps, goal
        region = {-1, 0, 1}
        for h in hyps:
            neg, a = (True, h.args[0]) if h.op == "not" else (False, h)
            if a in same:
                t = {0} if a.op == "eq0" else {-same[a]}
                region = region - t if neg else region & t
        if not region:
            return [FALSE], goal
        m = {}
        for x, sg in same.items():
            t = {0} if x.op == "eq0" else {-sg}
            if region <= t:
                m[x] = TRUE
            elif not (region & t):
                m[x] = FALSE
        goal = T.subst(goal, m)
        hy = []
        for h in hyps:
            a = h.args[0] if h.op == "not" else h
            w = h if a in same else T.subst(h, m)
            if w is not TRUE:
                hy.extend(w.args if w.op == "and" else [w])
        if region == {0} and c.op != "eq0":
            hy.append(T.eq(c.args[0], R0))
        return hy, goal

    def pure_real(self, hyps, goal):
        return all(s.sort != "I" for s in T.subterms([goal]))

    def cvc5(self, hyps, goal, timeout):
        import subprocess
        fs = closure([goal] + list(hyps))
        hs = relevant(list(hyps) + fs, goal)
        hs += bounds_of(hs + [goal])
        z = Z()
        s = z3.Solver()
        for h in hs:
            s.add(z.tr(h))
        s.add(z3.Not(z.tr(goal)))
        for x in z.side:
            s.add(x)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, "--lang=smt2", "-"], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
        except Exception:
            return False
        ok = p.stdout.strip().startswith("unsat")
        if ok:
            STATS["cvc5"] += 1
        return ok

    # ------------------------------------------------------------ helpers
    def empty_selections(self, hyps, goal):
        """hypothesis cnt_k <= 0: a sum over the selection's range whose terms vanish off the mask is 0"""
        sels = []
        for h in hyps:
            if h.op in ("le0", "eq0"):
                x = h.args[0]
                if x.op == "app" and x.args[0].startswith("cnt"):
                    s = CTX.sel_by_k(int(x.args[0][3:]))
                    if s is not None and len(x.args) == 1 + len(s.params):
                        sels.append((s, x.args[1:]))
        if not sels:
            return goal
        m = {}
        for t in T.subterms([goal]):
            if t.op != "sum" or t in m:
                continue
            free = set(v for v, _ in t.args[0]) & T.free_vars(goal)
            if free:
                continue
            for s, ps in sels:
                dims = [s.inst(d, ps, ()) for d in s.dims]
                left = list(t.args[0])
                js = []
                for d in dims:
                    hit = next((b for b in left if b[1] is d), None)
                    if hit is None:
                        break
                    left.remove(hit)
                    js.append(hit[0])
                if len(js) != len(dims):
                    continue
                extra = []
                for v, n in t.args[0]:
                    extra += [T.le(T.I0, v), T.lt(v, n)]
                off = T.not_(s.inst(s.body, ps, js))
                hy = list(hyps) + extra + (list(off.args) if off.op == "and" else [off])
                if self.quick(hy, T.eq(t.args[1], T.num(0, t.args[1].sort)), 1500):
                    m[t] = T.num(0, t.sort)
                    break
        if not m:
            return goal
        return T.subst(goal, m)

    def normalise(self, hyps, goal):
        """use literal hypotheses as rewrites: known conditions become true/false in the goal,
        integer equalities i = t are substituted"""
        for _ in range(4):
            m = {}
            for h in hyps:
                if h.op in ("lt0", "le0", "eq0", "app", "var", "or"):
                    m[h] = TRUE
                    n = T.not_(h)
                    if n.op != "and":
                        m[n] = FALSE
                elif h.op == "not":
                    m[h.args[0]] = FALSE
                    if h.args[0].op == "lt0":
                        pass
            sub = None
            allv = None
            for h in hyps:
                if h.op == "eq0" and h.args[0].sort == "I":
                    if allv is None:
                        cnt_ = {}
                        for q in set(list(hyps) + [goal]):
                            for v in T.free_vars(q):
                                cnt_[v] = cnt_.get(v, 0) + 1
                        allv = cnt_
                    c, parts = T._lin_parts(h.args[0])
                    cand = [(x, k) for x, k in parts.items() if k in (1, -1) and x.op == "var"]
                    if any(allv.get(x, 0) <= 1 for x, k in cand):
                        continue        # already solved for that variable
                    cand.sort(key=lambda p: (not p[0].args[0].startswith("$"), -p[0].id))
                    for x, k in cand:
                        rest = T.scale(-k, T.sub(h.args[0], T.scale(k, x)))
                        if x not in T.free_vars(rest) and allv.get(x, 0) > 1:
                            sub = (x, rest, h)
                            break
                if sub:
                    break
            if sub is None:
                sub = self.pinned(hyps)
            if sub:
                x, rest, h = sub
                bx = T.BOUNDS.get(x)
                hy = []
                for q in hyps:
                    if q is h:
                        continue
                    w = T.subst(q, {x: rest})
                    if w is not TRUE:
                        hy.extend(w.args if w.op == "and" else [w])
                if bx is not None:
                    hy += [T.le(I0, rest), T.lt(rest, bx)]
                    hy = [q for q in hy if q is not TRUE]
                goal = T.subst(goal, {x: rest})
                # kept: facts instantiated later still mention x
                hy.append(h if h is not None else T.eq(x, rest))
                hyps = hy
                if FALSE in hyps:
                    return [FALSE], goal
                continue
            g2 = T.subst(goal, m) if goal not in m else m[goal]
            if g2 is goal:
                break
            goal = g2
            if goal.op == "const":
                break
        return hyps, goal

    def pinned(self, hyps):
        """integer variable whose bounds coincide"""
        lo, hi = {}, {}
        for h in hyps:
            if h.op == "le0" and h.args[0].sort == "I":
                c, parts = T._lin_parts(h.args[0])
                if len(parts) == 1:
                    (x, k), = parts.items()
                    if x.op != "var":
                        continue
                    if k > 0:
                        v = (-c) // k
                        hi[x] = min(hi.get(x, v), v)
                    else:
                        v = -((-c) // (-k))
                        lo[x] = max(lo.get(x, v), v)
        for x, v in hi.items():
            l = lo.get(x)
            if T.BOUNDS.get(x) is not None:
                l = max(0, l) if l is not None else 0
            if l is not None and l == v:
                return (x, I(v), None)
        return None

    def int_cond(self, goal):
        """smallest integer ite condition of the goal"""
        best = None
        for s in T.subterms([goal]):
            if s.op == "ite":
                c = s.args[0]
                for l in (c.args if c.op in ("and", "or") else (c,)):
                    l = l.args[0] if l.op == "not" else l
                    if l.op in ("le0", "eq0") and l.args[0].sort == "I" and not any(x.op == "ite" for x in T.subterms([l])):
                        if any(v.args[0].startswith(("$s", "$b")) for v in T.free_vars(l)):
                            continue
                        if best is None or T.size(l) < T.size(best):
                            best = l
        return best

    def ring(self, hyps, goals, deadline=None):
        rg = Ring(CTX.rules)
        rg.deadline = deadline
        rg.set_bases(list(goals) + list(hyps))
        return rg

    def ring_zero(self, hyps, t, deadline=None):
        try:
            rg = self.ring(hyps, [t], deadline)
            if rg.wide > 3:
                rg.opaque = True
                try:
                    if rg.is_zero(t):
                        return True
                except TooBig:
                    pass
                rg = self.ring(hyps, [t], deadline)
            if rg.is_zero(t):
                return True
            # equality hypotheses: polynomial division, then as rewrite rules of single atoms
            eqs = [h.args[0] for h in hyps if h.op == "eq0" and h.args[0].sort == "R"]
            if not eqs:
                return False
            eqs = [e.args[0] for e in relevant([T._mk("eq0", (e,), "B") for e in eqs], t)]
            p = rg.conv(t).n
            for e in eqs:
                p = rg.divide(p, rg.conv(e).n)
                if not p:
                    return True
            rg = self.ring(hyps, [t], deadline)
            for e in eqs:
                self.add_eq(rg, e)
            rg.memo.clear()
            return rg.is_zero(t)
        except (TooBig, RecursionError):
            return False

    def add_eq(self, rg, d):
        r = rg.conv(d)
        if not r.n:
            return
        # choose an atom occurring in exactly one monomial, alone, in linear form (or alone to power 2)
        cnt = {}
        for m in r.n:
            for a, e in m:
                cnt[a] = cnt.get(a, 0) + 1
        best = None
        for m, c in r.n.items():
            if len(m) == 1 and cnt[m[0][0]] == 1 and m[0][0] not in rg.red:
                if best is None or m[0][1] < best[0][0][1]:
                    best = (m, c)
        if best is None:
            return
        m, c = best
        a, e = m[0]
        rest = {k: -v / c for k, v in r.n.items() if k != m}
        from .poly import Rat
        rg.red[a] = (e, Rat(rest))

    def sum_ext(self, hyps, t, deadline, depth, absd=False):
        """t = sum of +-c*SUM(...) terms pairing up by extensionality"""
        if depth > 12:
            return False
        c, parts = T._lin_parts(t)
        sums = [(x, k) for x, k in parts.items() if x.op == "sum"]
        if len(sums) < 2:
            return False
        rest = T.sub(t, T.add(*[T.scale(k, x) for x, k in sums]))
        if rest is not R0 and not self.ring_zero(hyps, rest):
            return False
        if len(sums) > 2 and self.sum_merge(hyps, sums, deadline, depth):
            return True
        left = list(sums)
        while left:
            x, k = left.pop()
            for q, (y, l) in enumerate(left):
                if k == -l and len(x.args[0]) == len(y.args[0]):
                    if self.sum_pair(hyps, x, y, deadline, depth):
                        left.pop(q)
                        break
            else:
                return False
        return True

    def sum_merge(self, hyps, sums, deadline, depth):
        """all sums run over the same binders: their combined summand is zero everywhere"""
        b0 = sums[0][0].args[0]
        zs, extra, body = [], [], R0
        for v, n in b0:
            z = CTX.fresh("$e", "I")
            n1 = T.subst(n, dict(zs))
            T.BOUNDS[z] = n1
            zs.append((v, z))
            extra += [T.le(I0, z), T.lt(z, n1)]
        for x, k in sums:
            if len(x.args[0]) != len(b0):
                return False
            m = {}
            for (v, n), (w, l), (_, z) in zip(b0, x.args[0], zs):
                if T.subst(l, m) is not T.subst(n, dict(zs)):
                    return False
                m[w] = z
            body = T.add(body, T.scale(k, T.subst(x.args[1], m)))
        st, _ = self._prove(list(hyps) + [e for e in extra if e is not TRUE], T.eq(body, R0), deadline, depth + 1)
        return st == "proved"

    def flat_count(self, t):
        """number of selected positions -> (dims, indices, predicate); a selection from the rows of a selection is unfolded"""
        if t.op == "app" and t.args[0].startswith("cnt"):
            s = CTX.sel_by_k(int(t.args[0][3:]))
            ps = t.args[1:]
        else:
            return (t,), (self.index(t),), TRUE
        dims = tuple(s.inst(d, ps, ()) for d in s.dims)
        js = tuple(self.index(d) for d in dims)
        return self.unfold(dims, js, s.inst(s.body, ps, js))

    def index(self, d):
        z = CTX.fresh("$e", "I")
        T.BOUNDS[z] = d
        return z

    def unfold(self, dims, js, pred):
        while len(dims) == 1 and dims[0].op == "app" and dims[0].args[0].startswith("cnt"):
            k = int(dims[0].args[0][3:])
            s, ps, b = CTX.sel_by_k(k), dims[0].args[1:], js[0]
            nd = tuple(s.inst(d, ps, ()) for d in s.dims)
            nj = tuple(self.index(d) for d in nd)
            p2 = T.subst(pred, {s.sel(d, ps, b): nj[d] for d in range(len(nd))})
            if b in T.free_vars(p2):
                break
            pred = T.and_(s.inst(s.body, ps, nj), p2)
            dims, js = nd, nj
        return dims, js, pred

    def count_ext(self, hyps, t, deadline, depth):
        """two counts of selected positions are equal if the same positions are selected"""
        if t.op != "lin" or t.args[0] != 0 or len(t.args[1]) != 2:
            return False
        (x, k), (y, l) = t.args[1]
        if k + l != 0 or abs(k) != 1 or not any(z.op == "app" and z.args[0].startswith("cnt") for z in (x, y)):
            return False
        (da, ja, pa), (db, jb, pb) = self.flat_count(x), self.flat_count(y)
        if da != db:
            return False
        pb = T.subst(pb, dict(zip(jb, ja)))
        if pa is pb:
            return True
        rng = [r for j, d in zip(ja, da) for r in (T.le(I0, j), T.lt(j, d))] + [T.le(I0, d) for d in da]
        rng = [r for r in rng if r is not TRUE]
        return all(self._prove(list(hyps) + rng + list(p.args if p.op == "and" else [p]), q, deadline, depth + 1)[0] == "proved"
                   for p, q in ((pa, pb), (pb, pa)) if q is not TRUE and p is not FALSE)

    def sum_pair(self, hyps, x, y, deadline, depth, absd=False):
        bx, by = x.args[0], y.args[0]
        for perm in itertools.permutations(range(len(bx))):
            m1, m2 = {}, {}
            extra = []
            ok = True
            for q, p in enumerate(perm):
                (v, n), (w, l) = bx[q], by[p]
                n1, l1 = T.subst(n, m1), T.subst(l, m2)
                if n1 is not l1:
                    ok = False
                    break
                z = CTX.fresh("$e", "I")
                T.BOUNDS[z] = n1
                m1[v] = z
                m2[w] = z
                extra += [T.le(I0, z), T.lt(z, n1)]
            if not ok:
                continue
            g = T.eq(T.subst(x.args[1], m1), T.subst(y.args[1], m2))
            st, _ = self._prove(list(hyps) + [e for e in extra if e is not TRUE], g, deadline, depth + 1, absd)
            if st == "proved":
                return True
        return False

    def pick_cond(self, goal, hyps):
        """innermost ite condition (smallest) of the goal"""
        best = None
        for s in T.subterms([goal]):
            if s.op == "ite":
                c = s.args[0]
                if any(x.op == "ite" for x in T.subterms([c])):
                    continue
                lits = c.args if c.op in ("and", "or") else (c,)
                for l in lits:
                    l = l.args[0] if l.op == "not" else l
                    if l.op in ("and", "or"):
                        l = l.args[0]
                    if any(v.args[0].startswith(("$s",)) for v in T.free_vars(l)):
                        continue
                    if best is None or T.size(l) < T.size(best):
                        best = l
        if best is None and goal.op in ("and", "or", "not"):
            return None
        return best


def zval(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None


# ------------------------------------------------------------------ numeric evaluation
def evaluate(t, env, memo=None):
    """env: fn(name, args)->value for vars/apps"""
    import math
    if memo is None:
        memo = {}

    def ev(t):
        r = memo.get(t)
        if r is None:
            r = _ev(t)
            memo[t] = r
        return r

    def _ev(t):
        op = t.op
        if op == "const":
            return t.args[0] if t.sort != "R" else float(t.args[0])
        if op == "var":
            return env(t.args[0], ())
        if op == "lin":
            s = float(t.args[0]) if t.sort == "R" else t.args[0]
            for x, k in t.args[1]:
                s = s + (float(k) if t.sort == "R" else k) * ev(x)
            return s
        if op == "mul":
            s = 1.0 if t.sort == "R" else 1
            for b, e in t.args:
                v = ev(b)
                s = s * (v ** e if not (e < 0 and v == 0) else float("nan"))
            return s
        if op == "lt0":
            return ev(t.args[0]) < 0
        if op == "le0":
            return ev(t.args[0]) <= 0
        if op == "eq0":
            return ev(t.args[0]) == 0
        if op == "not":
            return not ev(t.args[0])
        if op == "and":
            return all(ev(x) for x in t.args)
        if op == "or":
            return any(ev(x) for x in t.args)
        if op == "ite":
            return ev(t.args[1]) if ev(t.args[0]) else ev(t.args[2])
        if op == "sum":
            binders, body = t.args
            tot = 0.0
            ns = []
            def loop(k, m):
                nonlocal tot
                if k == len(binders):
                    tot += evaluate(T.subst(body, m), env)
                    return
                v, n = binders[k]
                N = evaluate(T.subst(n, m), env)
                for i in range(int(N)):
                    m2 = dict(m)
                    m2[v] = I(i)
                    loop(k + 1, m2)
            loop(0, {})
            return tot
        n = t.args[0]
        a = [ev(x) for x in t.args[1:]]
        if n == "toreal":
            return float(a[0])
        if n == "pi":
            return math.pi
        if n == "floor":
            return math.floor(a[0])
        if n == "round":
            return round(a[0])
        if n == "fdiv":
            return a[0] // a[1]
        if n == "fmod":
            return a[0] % a[1]
        if n == "root":
            return a[0] ** (1.0 / a[1])
        if n == "abs":
            return abs(a[0])
        if n in ("sqrt", "sin", "cos", "tan", "exp", "log", "acos", "asin", "atan"):
            try:
                return getattr(math, n)(a[0])
            except ValueError:
                return float("nan")
        return env(n, tuple(a))
    return ev(t)


CTX.prover = Prover()
