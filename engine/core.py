"""Symbolic execution context: path conditions, forking, facts, selections, loops."""
import sys
from . import terms as T
from .terms import Term, TRUE, FALSE, I, R, I0, I1, R0, R1


class Unsupported(BaseException):
    """The VC generator has no model for something the code does."""


class Infeasible(BaseException):
    """The current path is infeasible (or cut by an assumption)."""


class CutLoop(Infeasible):
    """back edge of a loop cut by its invariant: the path ends, its obligations stay"""


class Bounded(BaseException):
    """A loop bound was reached; the path is cut and the run is labelled bounded."""


class Obligation(object):
    __slots__ = ("name", "hyps", "goal", "kind", "path", "info", "status", "backend", "time", "model", "hints", "detail")

    def __init__(self, name, hyps, goal, kind, hints=None, info=None):
        self.name, self.hyps, self.goal, self.kind = name, list(hyps), goal, kind
        self.hints = hints or {}
        self.info = info or {}
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None
        self.detail = ""


class Frame(object):
    def __init__(self):
        self.decisions = []     # [(term, value, alternatives_left)]
        self.pos = 0
        self.conds = []


class Ctx(object):
    def __init__(self):
        self.prover = None
        self.reset_all()

    def reset_all(self):
        self.obligations = []
        self.notes = set()
        self.bounded = set()
        self.case_splits = {}
        self.done = []
        self.new_path()
        self.variants = {}
        self.near = {}
        self.triggers = {}          # app name -> list of fn(args)->Term
        self.global_facts = []
        self.rules = {}             # atom term -> (exp, Term)
        self.templates = {}
        self.pairs = {}             # binder templates whose facts are instantiated for pairs of (parameters, index)
        self.use_pairs = False
        self.fork_arg = False
        self.invariants = {}
        self.sels = {}
        self.buckets = {}
        self.selk = {}
        self.sel_by_k = self.selk.get
        self.max_paths = 80

    def new_path(self):
        self.frames = [Frame()]
        self.assumptions = []       # terms assumed (preconditions)
        self.fresh_n = {}
        self.loop_depth = 0
        self.store_clock = 0
        self.loops = []
        self.events = []
        self._known = {}
        self.forked = {}
        self.scope = None           # number of assumptions outside of the outermost `each`
        self._nz = {}
        self.path_triggers = {}     # preconditions on tensor elements declared on this path
        self.where_busy = False

    def nonzero(self, t):
        """is t != 0 implied by the path condition (facts local to an index scope excluded)?"""
        if t.op == "const":
            return T.cval(t) != 0
        k = (t, len(self.assumptions) if self.scope is None else self.scope, sum(len(f.conds) for f in self.frames))
        r = self._nz.get(k)
        if r is None:
            r = False
            if T.size(t) <= 400:
                if t.op == "app" and t.args[0] == "sqrt":
                    t = t.args[1]
                h = list(self.assumptions if self.scope is None else self.assumptions[:self.scope])
                for fr in self.frames:
                    h.extend(fr.conds)
                g = T.not_(T.eq(t, R0))
                r = g is TRUE or g in h or self.prover.quick(h, g, 200) or self.prover.quick_gen(h, g, 500)
            self._nz[k] = r
        return r

    # ---------------------------------------------------------------- names
    def fresh(self, base, sort="R"):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return T.var("%s!%d" % (base, n) if n else base, sort)

    def index(self, base, dim):
        """fresh index variable 0 <= v < dim"""
        dim = dimterm(dim)
        if dim.op == "const" and T.cval(dim) == 1:
            return I0
        v = self.fresh("$" + base, "I")
        T.BOUNDS[v] = dim
        return v

    # ---------------------------------------------------------------- facts
    def trigger(self, appname, f):
        self.triggers.setdefault(appname, []).append(f)

    def hyps(self):
        out = list(self.assumptions)
        for fr in self.frames:
            out.extend(fr.conds)
        return out

    def assume(self, t):
        if t is TRUE:
            return
        if t is FALSE:
            raise Infeasible()
        if t.op == "and":
            for u in t.args:
                self.assume(u)
            return
        self.assumptions.append(t)
        self._known.clear()

    def known(self, t, timeout=800):
        """quick check whether the path condition implies t"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        h = self.hyps()
        key = t
        r = self._known.get(key)
        if r is None:
            if t in h:
                r = True
            else:
                r = self.prover.quick(h, t, timeout)
            self._known[key] = r
        return r

    # ---------------------------------------------------------------- forking
    def decide(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        fr = self.frames[-1]
        if fr.pos < len(fr.decisions):
            d = fr.decisions[fr.pos]
            fr.pos += 1
            if d[3]:
                fr.conds.append(t if d[1] else T.not_(t))
                self._known.clear()
            return d[1]
        h = self.hyps()
        if t in h:
            v, alt, rec = True, False, False
        elif T.not_(t) in h:
            v, alt, rec = False, False, False
        elif self.prover.quick(h, t):
            v, alt, rec = True, False, False
        elif self.prover.quick(h, T.not_(t)):
            v, alt, rec = False, False, False
        else:
            v, alt, rec = True, True, True
        fr.decisions.append([t, v, alt, rec])
        fr.pos += 1
        if rec:
            fr.conds.append(t if v else T.not_(t))
            self._known.clear()
        if len(fr.decisions) > 400:
            raise Unsupported("path explosion / unbounded loop on symbolic condition %s" % T.show(t, 4))
        return v

    def advance(self, fr):
        """move a decision frame to the next unexplored path; False when exhausted"""
        while fr.decisions and not fr.decisions[-1][2]:
            fr.decisions.pop()
        if not fr.decisions:
            return False
        d = fr.decisions[-1]
        d[1], d[2] = not d[1], False
        fr.pos = 0
        fr.conds = []
        self._known.clear()
        return True

    # ---------------------------------------------------------------- obligations
    def oblige(self, name, goal, kind="post", hints=None, info=None):
        if goal is TRUE and kind == "safety":
            return
        self.obligations.append(Obligation(name, self.hyps(), goal, kind, hints, info))

    def oblige_done(self, what, goal):
        self.done.append(what)

    def safety(self, what, goal):
        """a run time error of the library call unless goal holds; forks like the library would"""
        if goal is TRUE:
            return
        fr = sys._getframe(1)
        where = ""
        while fr is not None:
            f = fr.f_code.co_filename
            if "/xrd_simulator/" in f:
                where = "%s:%s" % (f.split("/xrd_simulator/")[-1], fr.f_code.co_name)
                break
            fr = fr.f_back
        self.oblige("safe.%s@%s" % (what, where), goal, "safety")


CTX = Ctx()


def dimterm(d):
    if isinstance(d, Term):
        return d
    if hasattr(d, "v") and isinstance(d.v, Term):
        return d.v
    return I(d)


def dimval(t):
    """python int if constant, else the Term"""
    if isinstance(t, Term):
        return int(T.cval(t)) if t.op == "const" else t
    if hasattr(t, "v") and isinstance(t.v, Term):
        return dimval(t.v)
    return int(t)


# ------------------------------------------------------------------ templates (binder abstraction)
def abstract(body, bound):
    """Replace the bound vars and the free index variables ($..) by canonical ones.

    Returns (template body, params) where params are the free index variables of
    body in order of first occurrence."""
    params = []
    seen = set()
    free = T.free_vars(body)

    def walk(t):
        # maximal integer sub terms (applications / variables) that mention an index variable but no bound one
        if t in seen:
            return
        seen.add(t)
        if t.op == "var":
            if t.args[0].startswith("$") and t not in bound and t in free:
                params.append(t)
            return
        if t.op == "const":
            return
        if t.op == "app" and t.sort == "I" and t.args[0].startswith("sel"):
            fv = T.free_vars(t)
            if any(v.args[0].startswith("$") for v in fv) and not any(v in bound or v.args[0].startswith(("$b", "$s", "$p")) for v in fv):
                params.append(t)
                return
        for a in T.children(t):
            walk(a)
    walk(body)
    params.sort(key=lambda v: v.id)
    # a parameter occurring inside another one stays visible on its own only if it occurs elsewhere
    m = {}
    for n, b in enumerate(bound):
        m[b] = T.var("$b%d" % n, "I")
        if b in T.BOUNDS:
            pass
    for n, p in enumerate(params):
        m[p] = T.var("$p%d" % n, "I")
    return T.subst(body, m), params


class Selection(object):
    """Positions where a mask over dims holds, in row major order.

    cnt(params), sel_d(params, i), rank(params, j...) with their defining facts."""

    def __init__(self, k, dims, bound, params, body):
        self.k, self.dims, self.bound, self.params, self.body = k, dims, bound, params, body
        np_ = len(params)
        nd = len(dims)
        self.np = np_

        def inst(body, ps, js):
            m = dict(zip(self.params, ps))
            m.update(zip(self.bound, js))
            return T.subst(body, m)
        self.inst = inst

        def sel_fact(*args):
            ps, i = args[:np_], args[np_]
            cnt = self.cnt(ps)
            js = [self.sel(d, ps, i) for d in range(nd)]
            dms = [inst(d, ps, ()) for d in dims]
            inr = T.and_(T.le(I0, i), T.lt(i, cnt))
            return T.implies(inr, T.and_(inst(body, ps, js),
                                         *[T.and_(T.le(I0, j), T.lt(j, d)) for j, d in zip(js, dms)],
                                         T.eq(self.rank(ps, js), i)))
        for d in range(nd):
            CTX.trigger("sel%d.%d" % (k, d), sel_fact)

        def rank_fact(*args):
            ps, js = args[:np_], args[np_:]
            dms = [inst(d, ps, ()) for d in dims]
            r = self.rank(ps, js)
            return T.implies(T.and_(inst(body, ps, js), *[T.and_(T.le(I0, j), T.lt(j, d)) for j, d in zip(js, dms)]),
                             T.and_(T.le(I0, r), T.lt(r, self.cnt(ps)),
                                    *[T.eq(self.sel(d, ps, r), js[d]) for d in range(nd)]))
        CTX.trigger("rank%d" % k, rank_fact)

        def cnt_fact(*ps):
            # a positive count has a witness
            n = self.cnt(ps)
            top = [T.le(n, inst(dims[0], ps, ()))] if nd == 1 else []
            return T.and_(T.le(I0, n), *top, *[T.or_(T.le(n, I0), T.and_(T.le(I0, j), T.lt(j, inst(d, ps, ()))))
                                         for j, d in zip([self.sel(q, ps, I0) for q in range(nd)], dims)])
        CTX.trigger("cnt%d" % k, cnt_fact)
        CTX.pairs["cnt%d" % k] = ("sel", self)

        # if cnt = 0 no index satisfies the mask: instantiate through applications mentioning a bound index
        pats = {}
        for s in T.subterms([body]):
            if s.op == "app":
                pos = {}
                for n, a in enumerate(s.args[1:]):
                    if a in self.bound:
                        pos[a] = n
                if len(pos) == len(self.bound) and s.args[0] not in ("toreal", "floor"):
                    pats.setdefault(s.args[0], pos)
        for name, pos in list(pats.items())[:3]:
            def none_fact(*args, pos=pos):
                if self.params or len(args) <= max(pos.values()):
                    return TRUE
                js = [args[pos[b]] for b in self.bound]
                dms = [inst(d, (), ()) for d in dims]
                return T.or_(T.not_(inst(body, (), js)), T.lt(I0, self.cnt(())),
                             *[T.or_(T.lt(j, I0), T.le(d, j)) for j, d in zip(js, dms)])
            CTX.trigger(name, none_fact)

    def cnt(self, ps):
        return T.app("cnt%d" % self.k, ps, "I")

    def sel(self, d, ps, i):
        return T.app("sel%d.%d" % (self.k, d), tuple(ps) + (i,), "I")

    def rank(self, ps, js):
        return T.app("rank%d" % self.k, tuple(ps) + tuple(js), "I")


def selection(dims, maskfn):
    """-> (Selection, actual params)"""
    dims = [dimterm(d) for d in dims]
    bound = []
    for n, d in enumerate(dims):
        v = T.var("$m%d.%d" % (n, d.id), "I")
        T.BOUNDS[v] = d
        bound.append(v)
    body = maskfn(tuple(bound))
    if body is FALSE and False:
        pass
    tb, params = abstract(body, bound)
    m = {p: T.var("$p%d" % n, "I") for n, p in enumerate(params)}
    # dims may also mention index vars
    extra = sorted([v for d in dims for v in T.free_vars(d) if v.args[0].startswith("$") and v not in m], key=lambda v: v.id)
    for e in extra:
        if e not in m:
            m[e] = T.var("$p%d" % len(params), "I")
            params.append(e)
    tdims = tuple(T.subst(d, m) for d in dims)
    key = (tb, tdims)
    s = CTX.sels.get(key)
    if s is None:
        k = len(CTX.sels)
        pv = [T.var("$p%d" % n, "I") for n in range(len(params))]
        bv = [T.var("$b%d" % n, "I") for n in range(len(bound))]
        s = Selection(k, tdims, bv, pv, tb)
        CTX.sels[key] = s
        CTX.selk[k] = s
    return s, tuple(params)


# ------------------------------------------------------------------ sums
_SUMVARS = {}


def sumvar(n, depth):
    v = T.var("$s%d_%d" % (depth, n), "I")
    return v


def _sum_depth(t):
    d = 0
    for s in T.subterms([t]):
        if s.op == "sum":
            for v, _ in s.args[0]:
                n = int(v.args[0][2:].split("_")[0])
                d = max(d, n + 1)
    return d


def mk_sum(binders, body):
    """SUM over binders ((var, n), ...) of body; canonical bound variable names."""
    out_b = []
    if body.sort == "I":
        body = T.toreal(body)
    if body is R0:
        return R0
    # linearity over lin bodies
    if body.op == "lin":
        c, items = body.args
        parts = [T.scale(k, mk_sum(binders, x)) for x, k in items]
        if c:
            parts.append(T.scale(c, mk_sum(binders, R1)))
        return T.add(*parts)
    # flatten nested sums
    if body.op == "sum":
        inner, ib = body.args
        m = {}
        nb = []
        for v, n in inner:
            w = CTX.fresh("$t", "I")
            m[v] = w
            nb.append((w, n))
        for w, n in nb:
            T.BOUNDS[w] = n
        return mk_sum(tuple(binders) + tuple(nb), T.subst(ib, m))
    # unused binders / factors independent of binders
    bvs = [v for v, _ in binders]
    fv = T.free_vars(body)
    used, res = [], R1
    for v, n in binders:
        later = any(v in T.free_vars(m) for _, m in binders)
        if v not in fv and not later:
            res = T.mul(res, T.toreal(n))
        else:
            used.append((v, n))
    binders = tuple(used)
    if not binders:
        return T.mul(res, body)
    body = _sum_perm(binders, body)
    bset = frozenset(v for v, _ in binders)
    if body.op == "mul":
        ind = [(b, e) for b, e in body.args if not (T.free_vars(b) & bset)]
        if ind:
            dep = R1
            for b, e in body.args:
                if T.free_vars(b) & bset:
                    dep = T.mul(dep, T.powi(b, e))
            for b, e in ind:
                res = T.mul(res, T.powi(b, e))
            return T.mul(res, mk_sum(binders, dep))
        # sums inside products: pull the inner sum out
        for b, e in body.args:
            if b.op == "sum" and e == 1:
                rest = R1
                for bb, ee in body.args:
                    if bb is not b:
                        rest = T.mul(rest, T.powi(bb, ee))
                m, nb = {}, []
                for v, n in b.args[0]:
                    w = CTX.fresh("$t", "I")
                    T.BOUNDS[w] = n
                    m[v] = w
                    nb.append((w, n))
                return T.mul(res, mk_sum(binders + tuple(nb), T.mul(rest, T.subst(b.args[1], m))))
    rl = _range_cond(binders, body)
    if rl is not None:
        t, f = T.subst(body, {rl: TRUE, T.not_(rl): FALSE}), T.subst(body, {rl: FALSE, T.not_(rl): TRUE})
        return T.mul(res, T.add(mk_sum(binders, T.ite(rl, t, R0)), mk_sum(binders, T.ite(T.not_(rl), f, R0))))
    if body.op == "ite":
        c, a, b = body.args
        if a is R0 and b is not R0:
            c, a, b = T.not_(c), b, R0
        while b is R0 and a.op == "ite" and (a.args[1] is R0 or a.args[2] is R0):
            if a.args[2] is R0:
                c, a = T.and_(c, a.args[0]), a.args[1]
            else:
                c, a = T.and_(c, T.not_(a.args[0])), a.args[2]
            if c is FALSE:
                return R0
        body = T.ite(c, a, b)
        if body.op != "ite":
            return T.mul(res, mk_sum(binders, body))
        c, a, b = body.args
        if b is R0 and a.op == "ite":
            return T.mul(res, T.add(mk_sum(binders, T.ite(T.and_(c, a.args[0]), a.args[1], R0)),
                                    mk_sum(binders, T.ite(T.and_(c, T.not_(a.args[0])), a.args[2], R0))))
        if a is not R0 and b is not R0:
            return T.mul(res, T.add(mk_sum(binders, T.ite(c, a, R0)), mk_sum(binders, T.ite(T.not_(c), b, R0))))
        if b is not R0:
            c, a, b = T.not_(c), b, a
        r = _sum_guard(binders, c, a)
        if r is None:
            r = _sum_range(binders, c, a)
        if r is not None:
            return T.mul(res, r)
        if a.op in ("lin", "sum") or (a.op == "mul" and any((x.op == "sum") or not (T.free_vars(x) & bset) for x, _ in a.args)):
            if a.op == "lin":
                c0, items = a.args
                parts = [T.scale(k, mk_sum(binders, T.ite(c, x, R0))) for x, k in items]
                if c0:
                    parts.append(T.scale(c0, mk_sum(binders, T.ite(c, R1, R0))))
                return T.mul(res, T.add(*parts))
            if a.op == "mul":
                out, dep = R1, R1
                for x, e in a.args:
                    if T.free_vars(x) & bset:
                        dep = T.mul(dep, T.powi(x, e))
                    else:
                        out = T.mul(out, T.powi(x, e))
                if out is not R1:
                    return T.mul(res, T.mul(out, mk_sum(binders, T.ite(c, dep, R0))))
            if a.op == "sum":
                m, nb = {}, []
                for v, n in a.args[0]:
                    w = CTX.fresh("$t", "I")
                    T.BOUNDS[w] = n
                    m[v] = w
                    nb.append((w, n))
                return T.mul(res, mk_sum(binders + tuple(nb), T.ite(c, T.subst(a.args[1], m), R0)))
        # a guard count > 0 holds when the guard itself says that some index is selected
        c2 = _drop_implied(_drop_counts(binders, c))
        if c2 is not c:
            return T.mul(res, mk_sum(binders, T.ite(c2, a, R0)))
        # guard literals independent of the binders
        lits = c.args if c.op == "and" else (c,)
        indep = [x for x in lits if not (T.free_vars(x) & bset)]
        if indep:
            dep = T.and_(*[x for x in lits if T.free_vars(x) & bset])
            return T.mul(res, T.ite(T.and_(*indep), mk_sum(binders, T.ite(dep, a, R0)), R0))
    # selection reindexing: binder over cnt_k used only through sel_k
    r = _sum_sel(binders, body)
    if r is not None:
        return T.mul(res, r)
    r = _sum_partition(binders, body)
    if r is not None:
        return T.mul(res, r)
    # small constant ranges are expanded
    for v, n in binders:
        if n.op == "const" and T.cval(n) <= 4:
            rest = tuple((w, m) for w, m in binders if w is not v)
            return T.mul(res, T.add(R0, *[mk_sum(tuple((w, T.subst(m, {v: I(q)})) for w, m in rest), T.subst(body, {v: I(q)}))
                                           if rest else T.subst(body, {v: I(q)}) for q in range(T.cval(n))]))
    # canonical names (sorted by range, then first occurrence is approximated by binder order)
    depth = max([_sum_depth(body)] + [_sum_depth(n) for _, n in binders])
    binders = tuple(sorted(binders, key=lambda p: p[1].id))
    m = {}
    for q, (v, n) in enumerate(binders):
        w = sumvar(q, depth)
        m[v] = w
        out_b.append((w, n))
    for (w, n) in out_b:
        T.BOUNDS.pop(w, None)
    nb = tuple((w, T.subst(n, m)) for w, n in out_b)
    bd = T.subst(body, m)
    return T.mul(res, T._mk("sum", (nb, bd), "R"))


def _implied(l, eqs):
    """an inequality that follows from one of the integer equations and facts without bound variables"""
    if l.op != "le0":
        return False
    d = l.args[0]
    for e in eqs:
        for k in (1, -1):
            t = T.le(T.add(d, T.scale(k, e)), I0)
            if t is TRUE or (t is not FALSE and T.size(t) < 0.7 * T.size(l) and not any(
                    v.args[0].startswith(("$s", "$t", "$b", "$p", "$m")) for v in T.free_vars(t)) and CTX.known(t, 200)):
                return True
    return False


def _eqs(c):
    return [x.args[0] for x in (c.args if c.op == "and" else (c,)) if x.op == "eq0" and x.args[0].sort == "I"]


def _drop_implied(c):
    eqs = _eqs(c)
    if not eqs or c.op != "and":
        return c
    out = [l for l in c.args if not _implied(l, eqs)]
    return T.and_(*out) if len(out) < len(c.args) else c


def _drop_counts(binders, c):
    lits = list(c.args) if c.op == "and" else [c]
    out = list(lits)
    eqs = _eqs(c)
    for l in lits:
        d = None
        if l.op == "not" and l.args[0].op == "le0" and l.args[0].args[0].op == "app":       # not cnt <= 0
            d = l.args[0].args[0]
        elif l.op == "le0" and l.args[0].op == "lin":                                       # 1 - cnt <= 0
            c0, items = l.args[0].args
            if c0 == 1 and len(items) == 1 and items[0][1] == -1:
                d = items[0][0]
        if d is None or d.op != "app" or not d.args[0].startswith("cnt"):
            continue
        s = CTX.sel_by_k(int(d.args[0][3:]))
        ps = d.args[1:]
        others = frozenset(x for x in out if x is not l)
        rngs = [s.inst(q, ps, ()) for q in s.dims]
        cands = [[v for v, n in binders if n is q] for q in rngs]
        if any(not x for x in cands):
            continue
        import itertools
        for js in itertools.product(*cands):
            b = s.inst(s.body, ps, js)
            need = b.args if b.op == "and" else (b,)
            if len(set(js)) == len(js) and all(x in others or x is TRUE or _implied(x, eqs) for x in need):
                out.remove(l)
                break
    return T.and_(*out) if len(out) < len(lits) else c


def _sum_partition(binders, body):
    """sum over the batches b < ceil(n / B) and the positions k < min(B, n - B b) of a function of B b + k
    = sum over all p < n"""
    for k, ln in binders:
        for b, nb in binders:
            if b is k or b not in T.free_vars(ln) or b in T.free_vars(nb):
                continue
            c0, items = T._lin_parts(nb)
            fd = [x for x in items if x.op == "app" and x.args[0] == "fdiv"]
            if len(items) != 1 or not fd or items[fd[0]] != 1:
                continue
            a, B = fd[0].args[1:]
            a = T.add(a, T.mul(I(int(c0)), B))
            if b in T.free_vars(B) or not (B.op == "const" and T.cval(B) > 0 or CTX.known(T.lt(I0, B))):
                continue
            n = T.sub(a, T.sub(B, I1))
            Bb = T.mul(B, b)
            if not any(T.sub(m, Bb) is ln for m in (T.minimum(T.add(Bb, B), n), T.minimum(n, T.add(Bb, B)))) \
                    and not any(m is ln for m in (T.minimum(B, T.sub(n, Bb)), T.minimum(T.sub(n, Bb), B))):
                continue
            if not CTX.known(T.le(I0, n)):
                continue
            p = CTX.fresh("$t", "I")
            T.BOUNDS[p] = n
            b2 = T.subst(body, {k: T.sub(p, Bb)})
            if b in T.free_vars(b2) or k in T.free_vars(b2):
                continue
            rest = []
            ok = True
            for v, m in binders:
                if v is b or v is k:
                    continue
                m = T.subst(m, {k: T.sub(p, Bb)})
                ok = ok and b not in T.free_vars(m)
                rest.append((v, m))
            if ok:
                return mk_sum(tuple(rest) + ((p, n),), b2)
    return None


def nonneg(t):
    """syntactic check 0 <= t"""
    c, parts = T._lin_parts(t)
    if c < 0:
        return False
    for x, k in parts.items():
        if k < 0:
            return False
        if x.op == "app" and x.args[0].startswith("cnt"):
            continue
        if x in T.NONNEG or x in T.BOUNDS:
            continue
        if x.op == "mul" and x.sort == "I" and all(b in T.NONNEG for b, _ in x.args):
            continue
        return False
    return True


def _range_lit(l, binders):
    """le0 literal v < m / v >= m  ->  (v, n, 'lt'|'ge', m)"""
    if l.op != "le0" or l.args[0].sort != "I":
        return None
    c, parts = T._lin_parts(l.args[0])
    for v, n in binders:
        k = parts.get(v)
        if k not in (1, -1):
            continue
        rest = T.sub(l.args[0], T.scale(k, v))
        fr = T.free_vars(rest)
        if any(w in fr for w, _ in binders) or any(v in T.free_vars(m) for _, m in binders):
            return None
        if k == 1:                      # v <= -rest
            return v, n, "lt", T.sub(I1, rest)
        return v, n, "ge", rest         # v >= rest
    return None


def _range_ok(r):
    v, n, kind, m = r
    return nonneg(m) and nonneg(T.sub(n, m))


def _range_cond(binders, body):
    """a range literal used as an ite condition inside body (not as top level guard)"""
    top = ()
    if body.op == "ite" and (body.args[1] is R0 or body.args[2] is R0):
        c = body.args[0]
        top = c.args if c.op == "and" else (c,)
    for s in T.subterms([body]):
        if s.op == "ite":
            c = s.args[0]
            for l in (c.args if c.op in ("and", "or") else (c,)):
                if l in top:
                    continue
                r = _range_lit(l, binders)
                if r is not None and _range_ok(r):
                    return l
    return None


def _sum_range(binders, c, a):
    lits = c.args if c.op == "and" else (c,)
    for l in lits:
        r = _range_lit(l, binders)
        if r is None or not _range_ok(r):
            continue
        v, n, kind, m = r
        rest = T.and_(*[x for x in lits if x is not l])
        w = CTX.fresh("$t", "I")
        if kind == "lt":
            nn, sh = m, w
        else:
            nn, sh = T.sub(n, m), T.add(w, m)
        T.BOUNDS[w] = nn
        nb = tuple((w, nn) if x is v else (x, k) for x, k in binders)
        return mk_sum(nb, T.subst(T.ite(rest, a, R0), {v: sh}))
    return None


def _sum_perm(binders, body):
    """a sum over all of the range of a permutation that uses its index only through it is the sum over the index"""
    for v, n in binders:
        if any(v in T.free_vars(m) for _, m in binders):
            continue
        for x in T.subterms([body]):
            if x.op == "app" and x.args[0].startswith("perm") and not x.args[0].startswith("permi") and x.args[1:] == (v,) \
                    and CTX.templates.get(("perm", int(x.args[0][4:]))) is n:
                w = CTX.fresh("$t", "I")
                b2 = T.subst(body, {x: w})
                if v not in T.free_vars(b2):
                    return T.subst(b2, {w: v})
    return body


def _solve(lit, v):
    """literal eq0(d) with d = +-v + rest, rest free of v -> rest term t with v == t"""
    if lit.op != "eq0":
        return None
    d = lit.args[0]
    if d.sort != "I":
        return None
    c, parts = T._lin_parts(d)
    k = parts.get(v)
    if k not in (1, -1):
        return None
    rest = T.sub(d, T.scale(k, v))
    if v in T.free_vars(rest):
        return None
    return T.scale(-k, rest)


def _sum_guard(binders, c, a):
    """delta elimination: a guard literal fixes one binder"""
    lits = c.args if c.op == "and" else (c,)
    for v, n in binders:
        if any(v in T.free_vars(m) for _, m in binders):
            continue
        for l in lits:
            t = _solve(l, v)
            if t is not None:
                rest = tuple((w, m) for w, m in binders if w is not v)
                g = T.and_(T.le(I0, t), T.lt(t, n), *[T.subst(x, {v: t}) for x in lits if x is not l])
                return mk_sum(rest, T.ite(g, T.subst(a, {v: t}), R0)) if rest else T.ite(g, T.subst(a, {v: t}), R0)
    return None


def _sum_sel(binders, body):
    for v, n in binders:
        if n.op == "app" and n.args[0].startswith("cnt"):
            k = int(n.args[0][3:])
            ps = n.args[1:]
            s = [x for x in CTX.sels.values() if x.k == k][0]
            if any(v in T.free_vars(p) for p in ps):
                continue
            m = {}
            js = []
            for d in range(len(s.dims)):
                j = CTX.fresh("$t", "I")
                js.append(j)
                T.BOUNDS[j] = s.inst(s.dims[d], ps, ())
                m[s.sel(d, ps, v)] = j
            b2 = T.subst(body, m)
            if v in T.free_vars(b2):
                continue
            rest = tuple((w, q) for w, q in binders if w is not v)
            if any(v in T.free_vars(q) for _, q in rest):
                continue
            guard = s.inst(s.body, ps, js)
            return mk_sum(rest + tuple((j, T.BOUNDS[j]) for j in js), T.ite(guard, b2, R0))
        # permutations
        apps = [x for x in T.subterms([body]) if x.op == "app" and x.args[0].startswith("perm") and v in x.args[1:]]
        if apps:
            p = apps[0]
            if p.args[-1] is v and all(v not in T.free_vars(q) for q in p.args[1:-1]):
                j = CTX.fresh("$t", "I")
                T.BOUNDS[j] = n
                b2 = T.subst(body, {p: j})
                if v not in T.free_vars(b2):
                    return mk_sum(tuple((w, q) for w, q in binders if w is not v) + ((j, n),), b2)
    return None


T.SUM_HOOK[0] = mk_sum
