"""C17  the beam: its planes, what it contains, what it cuts out of a body, candidates during a motion."""
import math
from engine.api import case, Skip
from contracts._scene import *

B = "beam.Beam."
TOL = 5.01e-7           # planes are rounded to six decimals


class Hulls(object):
    """contract of scipy's ConvexHull: at least four face planes (unit normal, offset), every point on the inner side of each.
    Its use at the points and planes at hand is assumed with `inside`"""

    def __init__(self, c):
        self.c, self.made = c, []

    def __call__(self, points, qhull_options=None, incremental=False):
        c, k = self.c, len(self.made)
        N = c.shape(points)[0]
        c.ensure("hull of points in space", len(c.shape(points)) == 2 and c.eq(c.shape(points)[1], 3))
        h = type("Hull", (), {})()
        h.points = points
        M = c.dim("hull%d.vertices" % k, 1)
        c.assume(c.le(M, N))
        h.vertices = c.ten("hull%d.vertex" % k, (M,), 0, N - 1, dtype="int", lib="np")
        F = c.dim("hull%d.faces" % k, 4)
        h.equations = c.ten("hull%d" % k, (F, 4), lib="np", where=lambda x, f, q: c.eq(x(f, 0) * x(f, 0) + x(f, 1) * x(f, 1) + x(f, 2) * x(f, 2), 1))
        h.F = F
        self.made.append(h)
        return h

    def value(self, h, f, p):
        c = self.c
        return sum(c.at(h.equations, f, q) * p[q] for q in range(3)) + c.at(h.equations, f, 3)

    def inside(self, h, f, k):
        """point k of the hull is not outside of face f"""
        c = self.c
        c.assume(c.le(self.value(h, f, [c.at(h.points, k, q) for q in range(3)]), 0))


def np_feed(c, t):
    """the hull receives numpy copies of the tensors"""
    return t


def close(c, a, b):
    return c.and_(*[c.and_(c.le(x - y, TOL), c.le(y - x, TOL)) for x, y in zip(a, b)])


def equal(c, a, b):
    return c.and_(*[c.eq(x, y) for x, y in zip(a, b)])


def row(c, t, k):
    return [c.at(t, k, q) for q in range(4)]


def convex_points(c, n=None, size=None, centre=None):
    """random points in convex position around a centre"""
    np, rng = c.np, c.rng
    size = size or 10.0 ** rng.uniform(-1, 2)
    kind = rng.randrange(3)
    if kind == 0:
        v = box(np, (-size, size), (-size * rng.uniform(0.2, 2), size, -size, size * rng.uniform(0.2, 2)))
    elif kind == 1:
        v = np.array([unitv(c) for _ in range(n or rng.randint(4, 12))]) * size
    else:
        v = np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(4)]) * size
    if kind != 0 or rng.random() < 0.5:
        v = v @ euler_rot(np, rng).T * np.array([rng.uniform(1, 20), 1.0, 1.0])
    return v + (np.array([rng.uniform(-3, 3) for _ in range(3)]) * size if centre is None else centre)


def flat(np, v):
    from scipy.spatial import ConvexHull
    h = ConvexHull(v)
    return h.volume < 1e-3 * h.area ** 1.5 or len(h.vertices) < len(v)


def planes_of(np, v):
    """face planes of the hull by brute force over triples of points"""
    out = []
    n = len(v)
    s = np.abs(v - v.mean(0)).max()
    for i in range(n):
        for j in range(i):
            for k in range(j):
                m = np.cross(v[j] - v[i], v[k] - v[i])
                if np.linalg.norm(m) < 1e-9 * s * s:
                    continue
                m = m / np.linalg.norm(m)
                d = (v - v[i]) @ m
                if d.max() <= 1e-9 * s:
                    out.append(np.append(m, -m @ v[i]))
                if d.min() >= -1e-9 * s:
                    out.append(np.append(-m, m @ v[i]))
    return np.array(out)


@case("C17", [B + "__init__"], samples=60)
def waves(c):
    """wave vector and polarisation"""
    Beam = c.mod("beam").Beam
    if c.sym:
        Beam.set_beam_vertices = lambda self, v: setattr(self, "given", v)
        d = c.ten("direction", (3,))
        p = c.ten("polarization", (3,))
        c.assume(c.lt(0, sum(c.at(d, q) * c.at(d, q) for q in range(3))))
        c.assume(c.lt(0, sum(c.at(p, q) * c.at(p, q) for q in range(3))))
        v = c.ten("vertices", (c.dim("N", 4), 3))
    else:
        np, rng = c.np, c.rng
        d = unitv(c) if rng.random() < 0.5 else np.array([1.0, 0, 0])
        p = np.cross(d, unitv(c))
        p = p / np.linalg.norm(p)
        off = rng.choice([0.0, 0.0, 0.0, 1e-4, -0.1, 1.0])
        p = (p + off * d) * 10 ** rng.uniform(-2, 2)
        d = d * 10 ** rng.uniform(-2, 2)
        v = convex_points(c)
        if flat(np, v):
            raise Skip()
    lam = c.real("wavelength", 0, None, open=True, near=(0.01, 10))
    lib = c.pick("given as", [0, 1])
    if not c.sym:
        d, p, v = [c.torch.tensor(x) if lib else x.tolist() for x in (d, p, v)]
    raised, b = c.attempt(lambda: Beam(v, d, lam, p), AssertionError, ValueError)
    dd = [c.at(d, q) for q in range(3)]
    pp = [c.at(p, q) for q in range(3)]
    nd, npol = c.sqrt(sum(x * x for x in dd)), c.sqrt(sum(x * x for x in pp))
    along = sum((y / npol) * (2 * c.pi / lam * x / nd) for x, y in zip(dd, pp))
    if raised:
        c.ensure("polarisation not normal to the beam", c.lt(0 if not c.sym else 1e-8, c.abs(along)))
        return
    c.ensure("polarisation normal to the beam", c.le(c.abs(along), 1e-8 * (1 if c.sym else 1.0000001)))
    for q in range(3):
        c.same("wave vector", c.at(b.wave_vector, q) * lam * nd, 2 * c.pi * dd[q])
        c.same("polarisation", c.at(b.polarization_vector, q) * npol, pp[q])
    c.same("wavelength", b.wavelength, lam)
    if c.sym:
        c.ensure("the given vertices", c.shape(b.given) == c.shape(v) and all(c.at(b.given, k, q).v is c.at(v, k, q).v for k in range(4) for q in range(3)))


@case("C17", [B + "set_beam_vertices"], samples=60, budget=30)
def planes(c):
    """planes, centroid and vertices of the hull; points that are not all corners of their hull are refused"""
    c.use_pairs()
    bm = c.mod("beam")
    b = object.__new__(bm.Beam)
    if c.sym:
        H = bm.ConvexHull = Hulls(c)
        N = c.dim("N", 4)
        v = c.ten("v", (N, 3))
    else:
        np, rng = c.np, c.rng
        a = convex_points(c)
        if flat(np, a):
            raise Skip()
        inner = rng.random() < 0.2
        if inner:
            a = np.vstack([a, a.mean(0)])
        v, N = c.torch.tensor(a), len(a)
    old = c.snapshot(v)
    raised, _ = c.attempt(lambda: b.set_beam_vertices(v), AssertionError, ValueError)
    c.unchanged("vertices", v, old)
    if c.sym:
        M = c.shape(H.made[0].vertices)[0]
        c.ensure("refused if not convex", c.iff(raised, c.not_(c.eq(M, N))))
        c.ensure("hull of the given points", c.eq(c.shape(H.made[0].points)[0], N))
        for k in c.each(N, name="k"):
            for q in range(3):
                c.same("points of the hull", c.at(H.made[0].points, k, q), c.at(v, k, q))
    else:
        c.ensure("refused if not convex", raised == inner)
    if raised:
        return
    c.same_t("vertices", b.vertices, (N, 3), lambda k, q: c.at(v, k, q))
    c.ensure("own copy", b.vertices is not v)
    for q in range(3):
        c.same("centroid", c.at(b.centroid, q) * N, c.sum((N,), lambda k: c.at(v, k, q)), tol=1e-9, scale=None if c.sym else 1 + float(abs(a).sum()))
    hs = b.halfspaces
    P = c.shape(hs)[0]
    c.same_shape("planes", hs, (P, 4))
    if c.sym:
        h = H.made[-1]
        for k in c.each(N, name="k"):
            for q in range(3):
                c.same("points of the hull", c.at(h.points, k, q), c.at(v, k, q))
        for f in c.each(h.F, name="f"):
            e = row(c, h.equations, f)
            c.ensure("every face has its plane", c.not_(c.forall(P, lambda k: c.not_(close(c, row(c, hs, k), e)))))
        for k in c.each(P, name="h"):
            r = row(c, hs, k)
            c.ensure("every plane is that of a face", c.not_(c.forall(h.F, lambda f: c.not_(close(c, row(c, h.equations, f), r)))))
    else:
        want = planes_of(np, a)
        s = 1 + np.abs(a).max()
        got = np_(hs)
        # QJ joggles the points: planes within that and the rounding of the coefficients
        for w in want:
            c.ensure("every face has its plane", min(np.abs((got - w) / [1, 1, 1, s]).max(1)) < 3e-6)
        c.ensure("every plane bounds the points", bool(((a @ got[:, :3].T + got[:, 3]) < 4e-6 * s).all()))
        c.ensure("every plane touches the points", bool(((a @ got[:, :3].T + got[:, 3]).max(0) > -4e-6 * s).all()))


def beam_with_planes(c):
    b = object.__new__(c.mod("beam").Beam)
    if c.sym:
        P = c.dim("P", 4)
        b.halfspaces = c.ten("planes", (P, 4))
    else:
        a = convex_points(c)
        if flat(c.np, a):
            raise Skip()
        b.set_beam_vertices(c.torch.tensor(a))
        P = c.shape(b.halfspaces)[0]
    return b, P


@case("C17", [B + "_contains"], samples=60)
def contains(c):
    """strictly inside every plane, for a list of points and for one"""
    b, P = beam_with_planes(c)
    N = c.dim("N", 0)
    one = c.pick("one point", [0, 1])
    shape = (3,) if one else (3, N)
    if c.sym:
        x = c.ten("x", shape)
    else:
        np, rng = c.np, c.rng
        v = np_(b.vertices)
        lo, hi = v.min(0), v.max(0)
        pts = []
        for _ in range(1 if one else N):
            w = np.array([rng.expovariate(1) for _ in v])
            p = (w / w.sum()) @ v if rng.random() < 0.5 else np.array([rng.uniform(l, h) for l, h in zip(lo, hi)])
            pts.append(p if rng.random() < 0.8 else v[rng.randrange(len(v))])      # and corners, which are not inside
        a = np.array(pts).reshape(-1, 3).T
        x = c.torch.tensor(a[:, 0] if one else a)
        if rng.random() < 0.3:
            x = x.numpy()
    planes0, x0 = c.snapshot(b.halfspaces), c.snapshot(x)
    out = b._contains(x)
    c.unchanged("planes", b.halfspaces, planes0)
    c.unchanged("points", x, x0)
    c.same_shape("answers", out, () if one else (N,))
    val = lambda f, p: sum(c.at(b.halfspaces, f, q) * p[q] for q in range(3)) + c.at(b.halfspaces, f, 3)
    for k in ([None] if one else c.each(N, name="k")):
        p = [c.at(x, q) if one else c.at(x, q, k) for q in range(3)]
        got = c.at(out) if one else c.at(out, k)
        want = c.forall(P, lambda f: c.lt(val(f, p), 0))
        if not c.sym and min(abs(float(val(f, p))) for f in range(P)) < 1e-9 * (1 + max(abs(float(t)) for t in p)):
            continue
        c.ensure("inside", c.iff(got, want))


def lp(c, candidates):
    """contract of scipy's linprog with all options but a time limit: x is feasible and no candidate that is feasible has a lower cost;
    without success no candidate is feasible.  (Assumed: the time limit of the call does not stop it)"""
    def linprog(c_, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=(0, None), method="highs", options=None, **kw):
        if A_eq is not None or b_eq is not None or kw:
            c.fail("linear program outside the contract")
        P, n = c.shape(A_ub)
        c.same_shape("right hand side", b_ub, (P,))
        c.same_shape("cost", c_, (n,))
        z = candidates[n]
        bs = [bounds] * n if len(bounds) == 2 and not isinstance(bounds[0], (tuple, list)) else list(bounds)
        c.ensure("bounds for every unknown", len(bs) == n)
        row = lambda f, x: sum(c.at(A_ub, f, q) * x[q] for q in range(n))
        ok = lambda x: [c.forall(P, lambda f: c.le(row(f, x), c.at(b_ub, f)))] + [c.le(l, v) for (l, _), v in zip(bs, x) if l is not None] + [c.le(v, u) for (_, u), v in zip(bs, x) if u is not None]
        cost = lambda x: sum(c.at(c_, q) * x[q] for q in range(n))
        r = type("Result", (), {})()
        r.success = bool(c.bool("found"))
        if not r.success:
            c.assume(c.not_(c.and_(*ok(z))))
            return r
        r.x = c.ten("solution", (n,), lib="np")
        x = [c.at(r.x, q) for q in range(n)]
        for fact in ok(x):
            c.assume(fact)
        c.assume(c.implies(c.and_(*ok(z)), c.le(cost(x), cost(z))))
        r.slack = b_ub - A_ub.dot(r.x)
        return r
    return lambda *a, **k: linprog(*a, **{("c_" if q == "c" else q): v for q, v in k.items()})


@case("C17", [B + "_find_feasible_point"], samples=80)
def feasible(c):
    """the point returned is strictly inside every half space, and one is found if a ball fits inside"""
    c.use_pairs()
    bm = c.mod("beam")
    b = object.__new__(bm.Beam)
    if c.sym:
        P = c.dim("P", 4)
        hs = c.ten("planes", (P, 4), lib=c.pick("lib", ["np", "torch"]))
        size = lambda f: sum(c.at(hs, f, q) * c.at(hs, f, q) for q in range(3))
        c.assume(c.forall(P, lambda f: c.le(0.25, size(f))))        # normals of length one up to rounding
        # a ball inside of all planes, if there is one
        y, rho = [c.real("y%d" % q) for q in range(3)], c.real("rho", 4e-8, 1)          # a larger ball holds one of radius 1
        fits = c.forall(P, lambda f: c.le(sum(c.at(hs, f, q) * y[q] for q in range(3)) + rho * c.sqrt(size(f)) + c.at(hs, f, 3), 0))
        bm.linprog = lp(c, {3: y, 4: y + [rho]})
    else:
        np, rng = c.np, c.rng
        a, w = convex_points(c), convex_points(c, size=10.0 ** rng.uniform(-1, 1))
        if flat(np, a) or flat(np, w):
            raise Skip()
        from scipy.spatial import ConvexHull
        k = rng.random()
        w = w - w.mean(0) + a.mean(0) + (rng.uniform(0, 3) * (a[0] - a.mean(0)))
        hs = np.vstack([ConvexHull(w).equations.round(6), ConvexHull(a).equations.round(6)])
        P = len(hs)
    h0 = c.snapshot(hs)
    p = b._find_feasible_point(hs)
    c.unchanged("planes", hs, h0)
    if p is not None:
        c.same_shape("point", p, (3,))
        for f in c.each(P, name="f"):
            c.ensure("strictly inside", c.lt(sum(c.at(hs, f, q) * c.at(p, q) for q in range(3)) + c.at(hs, f, 3), 0))
    elif not c.sym:
        # largest ball inside of all planes
        from scipy.optimize import linprog
        n = np.linalg.norm(hs[:, :3], axis=1)
        res = linprog([0, 0, 0, -1.0], A_ub=np.hstack([hs[:, :3], n[:, None]]), b_ub=-hs[:, 3], bounds=[(None, None)] * 3 + [(0, None)])
        c.ensure("nothing inside", (not res.success) or res.x[3] < 1e-4)
    else:
        c.ensure("no ball inside", c.not_(fits))


def stubs(c, b, P, v, interior):
    """contracts of the hull, the half-space intersection and the feasible point; `interior`: the point handed over is inside of every plane"""
    bm = c.mod("beam")
    st = type("Stubs", (), {})()
    st.asked, st.cut = [], []
    if interior:
        L = st.L = c.real("L", 0)
        for k in range(4):
            for q in range(3):
                c.assume(c.le(c.abs(c.at(v, k, q)), L))
        thick = 1e-3 * (3 * L + 1)

    class Body(Hulls):
        def __call__(self, points, **kw):
            h = Hulls.__call__(self, points, **kw)
            if interior and not self.made[1:]:
                # its corners are not outside of a face, and it is not flat
                pk = [[c.at(points, k, q) for q in range(3)] for k in range(4)]
                for p in pk:
                    c.assume(c.forall(h.F, lambda f: c.le(self.value(h, f, p), 0)))
                m = [sum(p[q] for p in pk) / 4 for q in range(3)]
                c.assume(c.forall(h.F, lambda f: c.le(self.value(h, f, m), 0 - thick)))
            return h
    H = st.H = bm.ConvexHull = Body(c)

    def find(self, hs):
        st.asked.append(hs)
        if not c.bool("found"):
            return None
        p = c.ten("found point", (3,), lib="np")
        if interior:
            c.assume(c.forall(c.shape(hs)[0], lambda f: c.lt(sum(c.at(hs, f, q) * c.at(p, q) for q in range(3)) + c.at(hs, f, 3), 0)))
        return p
    bm.Beam._find_feasible_point = find

    def intersection(hs, p, **kw):
        r = type("Intersection", (), {})()
        r.halfspaces, r.point = hs, p
        st.cut.append(r)
        c.same_shape("interior point", p, (3,))
        if interior:
            strictly(hs, p)
        r.intersections = c.ten("crossing", (c.dim("K", 4), 3), lib="np")
        return r
    bm.HalfspaceIntersection = intersection

    def strictly(hs, p):
        body = H.made[0]
        z = [c.at(p, q) for q in range(3)]
        val = lambda e: sum(e[q] * z[q] for q in range(3)) + e[3]
        for q in range(3):
            if not st.asked:
                c.lemma("interior point within the crystal's box", c.le(c.abs(z[q]), L))
        for f in c.each(c.shape(hs)[0], name="h"):
            e = row(c, hs, f)
            if st.asked:
                c.ensure("interior point inside of every half space", c.lt(val(e), 0))
                continue
            i, j = c.find(P, lambda k: equal(c, row(c, b.halfspaces, k), e)), c.find(body.F, lambda k: close(c, row(c, body.equations, k), e))
            beams, face = row(c, b.halfspaces, i), row(c, body.equations, j)
            of_beam, of_body = c.and_(c.le(0, i), c.lt(i, P), equal(c, beams, e)), c.and_(c.le(0, j), c.lt(j, body.F), close(c, face, e))
            c.lemma("a plane of the beam or of the crystal", c.or_(of_beam, of_body))
            c.lemma("inside of the beam", c.implies(of_beam, c.lt(val(e), 0)))
            c.lemma("inside of the crystal", c.implies(of_body, c.le(val(face), 0 - thick / 100)))
            xs = face + e + z + [L]
            c.cut("interior point inside of every half space", xs + [c.ite(of_body, 1.0, 0.0), c.ite(of_beam, 1.0, 0.0)], [
                lambda *x: c.implies(c.eq(x[12], 1), c.and_(*[c.and_(c.le(x[q] - x[4 + q], TOL), c.le(x[4 + q] - x[q], TOL)) for q in range(4)])),
                lambda *x: c.implies(c.eq(x[12], 1), c.le(sum(x[q] * x[8 + q] for q in range(3)) + x[3], -1e-5 * (3 * x[11] + 1))),
                lambda *x: c.implies(c.eq(x[13], 1), c.lt(sum(x[4 + q] * x[8 + q] for q in range(3)) + x[7], 0)),
                lambda *x: c.and_(*[c.le(c.abs(x[8 + q]), x[11]) for q in range(3)]),
                lambda *x: c.or_(c.eq(x[12], 1), c.eq(x[13], 1))],
                lambda *x: c.lt(sum(x[4 + q] * x[8 + q] for q in range(3)) + x[7], 0))
    return st


@case("C17", [B + "_intersect", B + "_contains"], name="interior_point", budget=60, concrete=False)
def interior_point(c):
    """the point handed to the half-space intersection is strictly inside of every plane of the beam and of the crystal, as it requires"""
    c.use_pairs()
    b, P = beam_with_planes(c)
    v = c.ten("corners", (4, 3))
    stubs(c, b, P, v, True)
    b._intersect(v)


@case("C17", [B + "_intersect", B + "_contains"], samples=60, budget=60)
def intersect(c):
    """the part of a crystal inside the beam: the crystal itself, the corners of the half spaces of crystal and beam, or nothing"""
    if not c.sym:
        return intersect_volume(c)
    c.use_pairs()
    b, P = beam_with_planes(c)
    v = c.ten("corners", (4, 3))
    st = stubs(c, b, P, v, False)
    H, asked, cut = st.H, st.asked, st.cut
    v0, h0 = c.snapshot(v), c.snapshot(b.halfspaces)
    out = b._intersect(v)
    c.unchanged("corners", v, v0)
    c.unchanged("planes", b.halfspaces, h0)
    inside = lambda p: c.forall(P, lambda f: c.lt(sum(c.at(b.halfspaces, f, q) * p[q] for q in range(3)) + c.at(b.halfspaces, f, 3), 0))
    corner = [[c.at(v, k, q) for q in range(3)] for k in range(4)]
    for hs in asked + [r.halfspaces for r in cut]:
        body = H.made[0]
        n = c.shape(hs)[0]
        for f in c.each(P, name="f"):
            e = row(c, b.halfspaces, f)
            c.ensure("every plane of the beam", c.not_(c.forall(n, lambda k: c.not_(equal(c, row(c, hs, k), e)))))
        for f in c.each(body.F, name="g"):
            e = row(c, body.equations, f)
            c.ensure("every face of the crystal", c.not_(c.forall(n, lambda k: c.not_(close(c, row(c, hs, k), e)))))
        for k in c.each(n, name="h"):
            r = row(c, hs, k)
            c.ensure("no other plane", c.or_(c.not_(c.forall(P, lambda f: c.not_(equal(c, row(c, b.halfspaces, f), r)))),
                                             c.not_(c.forall(body.F, lambda f: c.not_(close(c, row(c, body.equations, f), r))))))
        for k in range(4):
            for q in range(3):
                c.same("hull of the crystal", c.at(body.points, k, q), c.at(v, k, q))
    if out is None:
        c.ensure("nothing only if no point is found", len(asked) == 1 and not cut)
        return
    c.ensure("hull", out is H.made[-1])
    if cut:
        c.ensure("crossings", len(cut) == 1)
        K = c.shape(cut[0].intersections)[0]
        c.same_t("hull of the crossings", out.points, (K, 3), lambda k, q: c.at(cut[0].intersections, k, q))
    else:
        c.same_t("hull of the crystal", out.points, (4, 3), lambda k, q: c.at(v, k, q))
        for p in corner:
            c.ensure("crystal inside the beam", inside(p))


def clip_tets(np, tets, n, d):
    """the parts of tetrahedra with n.x + d <= 0"""
    out = []
    for t in tets:
        s = t @ n + d
        ins, o = [k for k in range(4) if s[k] <= 0], [k for k in range(4) if s[k] > 0]
        cut = lambda a, b: t[a] + (t[b] - t[a]) * (s[a] / (s[a] - s[b]))
        if len(ins) == 4:
            out.append(t)
        elif len(ins) == 1:
            out.append(np.array([t[ins[0]]] + [cut(ins[0], b) for b in o]))
        elif len(ins) == 3:
            p, q = [cut(a, o[0]) for a in ins], [t[a] for a in ins]
            out += [np.array([q[0], q[1], q[2], p[2]]), np.array([q[0], q[1], p[2], p[1]]), np.array([q[0], p[0], p[1], p[2]])]
        elif len(ins) == 2:
            (a, b), (e, f) = ins, o
            ae, af, be, bf = cut(a, e), cut(a, f), cut(b, e), cut(b, f)
            out += [np.array([t[a], ae, af, t[b]]), np.array([ae, af, t[b], bf]), np.array([ae, t[b], bf, be])]
    return out


def tets_volume(np, tets):
    return sum(abs(np.linalg.det(t[1:] - t[0])) / 6 for t in tets)


def intersect_volume(c):
    from scipy.spatial import ConvexHull, Delaunay
    np, rng = c.np, c.rng
    a = convex_points(c)
    w = convex_points(c, size=np.abs(a - a.mean(0)).max() * 10.0 ** rng.uniform(-1.5, 1), centre=0)
    if rng.random() < 0.5:
        w = w[:4]
    if np.linalg.matrix_rank(w - w[0], tol=1e-6 * np.abs(w).max()) < 3:
        raise Skip()
    w = w + a.mean(0) + rng.choice([0, 1, 1, 1.5]) * rng.uniform(0, 1) * (a[rng.randrange(len(a))] - a.mean(0))
    if flat(np, a) or flat(np, w):
        raise Skip()
    b = object.__new__(c.mod("beam").Beam)
    b.set_beam_vertices(c.torch.tensor(a))
    h = b._intersect(c.torch.tensor(w))
    tets = [w[s] for s in Delaunay(w).simplices]
    V = ConvexHull(w)
    for e in planes_of(np, a):
        tets = clip_tets(np, tets, e[:3], e[3])
    want = tets_volume(np, tets)
    got = 0.0 if h is None else h.volume
    tol = 6e-6 * (2 * np.abs(w).max() + np.abs(a).max() + 1) * V.area + 1e-9 * V.volume
    c.ensure("volume of the part in the beam", abs(got - want) <= tol)
    if h is not None:
        p = h.points[h.vertices]
        d = 1e-5 * (1 + np.abs(w).max() + np.abs(a).max())
        c.ensure("inside the crystal", bool((p @ V.equations[:, :3].T + V.equations[:, 3] < d).all()))
        E = planes_of(np, a)
        c.ensure("inside the beam", bool((p @ E[:, :3].T + E[:, 3] < d).all()))


@case("C17", [B + "_get_candidate_spheres", "motion.RigidBodyMotion.__call__"], samples=40, budget=60)
def candidates(c):
    """at each sampled time every sphere that reaches into the beam is a candidate; a sphere outside of a plane is none;
    between two sampled times the sample is translated by at most half of the smallest radius and turned by at most a degree"""
    c.use_pairs()
    b, P = beam_with_planes(c)
    N = c.dim("N", 1)
    if c.sym:
        x, R = c.ten("centres", (N, 3)), c.ten("R", (N,), 0, None, open=True, near=(1e-6, 10))
        m = object.__new__(c.mod("motion").RigidBodyMotion)
        moved = []

        def move(self, y, time):
            # its own contract is C01: here any map
            s = c.shape(y)
            c.ensure("moves the centres", len(s) == 2)
            key = lambda k, q: c.func("moved", k, q, time)
            return c.fnten(key, s)
        c.mod("motion").RigidBodyMotion.__call__ = move
        m.rotation_axis, m.rotation_angle, m.translation, m.origin = c.unit("axis"), c.at(c.ten("angle", (1,), 0, c.pi, open=True), 0), c.ten("T", (3,)), c.ten("o", (3,))
        m.rotation_angle = c.ten("ang", (), 0, c.pi, open=True)
    else:
        np, rng = c.np, c.rng
        m = motion_of(c, big=rng.random() < 0.5)
        v = np_(b.vertices)
        s = np.abs(v - v.mean(0)).max()
        x = c.torch.tensor(np.array([v.mean(0) + np.array([rng.gauss(0, 1.5 * s) for _ in range(3)]) for _ in range(N)]))
        R = c.torch.tensor([s * rng.choice([rng.uniform(0.1, 0.5), 10 ** rng.uniform(-2, 0.5)]) for _ in range(N)])
    x0, R0 = c.snapshot(x), c.snapshot(R)
    mask, times = b._get_candidate_spheres(x, R, m)
    c.unchanged("centres", x, x0)
    c.unchanged("radii", R, R0)
    M = c.shape(times)[0]
    c.same_shape("mask", mask, (M, N))
    c.ensure("start and end", c.and_(c.eq(c.at(times, 0), 0), c.eq(c.at(times, M - 1), 1)))
    T2 = sum(c.at(m.translation, q) * c.at(m.translation, q) for q in range(3))
    one = 1 if c.sym else 1 + 1e-6
    for t in c.each(M - 1, name="t"):
        dt = c.at(times, t + 1) - c.at(times, t)
        c.ensure("in order", c.lt(0, dt))
        c.ensure("at most a degree", c.le(dt * c.at(m.rotation_angle) * 180, c.pi * one))
        for k in c.each(N, name="k"):
            c.ensure("at most half a radius", c.le(4 * dt * dt * T2, c.at(R, k) * c.at(R, k) * one))
    for t in c.each(M, name="t"):
        tt = c.at(times, t)
        if c.sym:
            y = lambda k: [c.func("moved", k, q, tt) for q in range(3)]
        else:
            z = np_(m(x, c.torch.tensor(tt)))
            y = lambda k: z[k]
        for k in c.each(N, name="k"):
            d = lambda f: sum(c.at(b.halfspaces, f, q) * y(k)[q] for q in range(3)) + c.at(b.halfspaces, f, 3)
            if not c.sym and min(abs(d(f) - c.at(R, k)) for f in range(P)) < 1e-9 * s:
                continue
            c.ensure("candidate unless outside of a plane", c.iff(c.at(mask, t, k), c.forall(P, lambda f: c.le(d(f), c.at(R, k)))))
