"""C21  length of a line inside a convex polyhedron."""
import math
from engine.api import case, Skip
from contracts._scene import *

F = "utils._clip_line_with_convex_polyhedron"


def polyhedron(c):
    """face normals and points; in concrete runs the faces of a random closed polyhedron, each listed once or twice"""
    if c.sym:
        P = c.dim("P", 1)
        return P, c.ten("normals", (P, 3)), c.ten("points", (P, 3))
    np, rng = c.np, c.rng
    if rng.random() < 0.5:
        # a box, axis aligned or turned
        R = rodrigues(np, unitv(c), rng.uniform(0, 3)) if rng.random() < 0.5 else np.eye(3)
        h = [rng.choice([1.0, 2.0, rng.uniform(0.3, 4), 10.0 ** rng.uniform(-2, 3)]) for _ in range(3)]
        cen = np.array([rng.choice([0.0, 1.0, rng.uniform(-5, 5)]) for _ in range(3)])
        n = np.array([s * R[:, q] for q in range(3) for s in (-1.0, 1.0)])
        p = np.array([cen + s * h[q] * R[:, q] for q in range(3) for s in (-1.0, 1.0)])
    else:
        from scipy.spatial import ConvexHull
        v = np.array([[rng.gauss(0, 2) for _ in range(3)] for _ in range(rng.randint(4, 12))]) + rng.uniform(-3, 3)
        e = ConvexHull(v).equations
        n, p = e[:, :3], -e[:, 3:4] * e[:, :3]
    # every face plane has many points
    for i in range(len(n)):
        t = np.cross(n[i], unitv(c))
        if rng.random() < 0.5:
            p[i] = p[i] + rng.uniform(-2, 2) * t
    return len(n), c.torch.tensor(n), c.torch.tensor(p)


@case("C21", [F], samples=80, budget=30)
def clip_length(c):
    """any two points of the line in the polyhedron are at most the returned length apart, and a positive length is attained by a segment inside"""
    c.use_pairs()
    P, n, p = polyhedron(c)
    N = c.dim("N", 0)
    x = c.ten("x", (N, 3), near=(-4, 4))
    if c.sym:
        v = c.ten("v", (3,))
    else:
        a = c.np.array([c.rng.choice([0.0, 0.0, 1.0, -1.0]) for _ in range(3)])
        a = unitv(c) if c.rng.random() < 0.5 or not a.any() else a
        if c.rng.random() < 0.4:      # nearly parallel to a face
            a[c.rng.randrange(3)] += 10.0 ** c.rng.uniform(-5, -1)
        v = c.torch.tensor(a)
    nv = lambda q: sum(c.at(n, q, j) * c.at(v, j) for j in range(3))
    # d(e, q): signed distance of the line's base point to the plane times the length of its normal
    off = lambda e, q: sum(c.at(n, q, j) * c.at(x, e, j) for j in range(3)) - sum(c.at(n, q, j) * c.at(p, q, j) for j in range(3))
    if c.sym:
        # the polyhedron is closed: the line leaves it at both ends
        c.assume(c.lt(0, c.nselected(P, lambda q: c.lt(nv(q), 0))))
        c.assume(c.lt(0, c.nselected(P, lambda q: c.lt(0, nv(q)))))
    sx, sv, sn, sp = (c.snapshot(t) for t in (x, v, n, p))
    out = c.mod("utils")._clip_line_with_convex_polyhedron(x, v, p, n)
    c.same_shape("one length per line", out, (N,))
    for nm, t, s in (("points", x, sx), ("direction", v, sv), ("normals", n, sn), ("plane points", p, sp)):
        c.unchanged(nm, t, s)
    if c.sym:
        ti = c.fnten(lambda e, q: (0 - off(e, q)) / nv(q), (N, P))
        ent = c.fnten(lambda q: c.lt(nv(q), 0), (P,), dtype="bool")
        lea = c.fnten(lambda q: c.lt(0, nv(q)), (P,), dtype="bool")
        for e in c.each(N, name="e"):
            L = c.at(out, e)
            te, tl = c.at(c.torch.max(ti[:, ent], dim=1).values, e), c.at(c.torch.min(ti[:, lea], dim=1).values, e)
            c.ensure("finite", c.finite(L))
            c.ensure("not negative", c.le(0, L))
            # two points of the line inside all faces
            t, u = c.real("t"), c.real("u")
            for s in (t, u):
                c.assume(c.forall(P, lambda q, s=s: c.le(off(e, q) + s * nv(q), 0)))
            c.ensure("no longer segment inside", c.le(u - t, c.max(L, 1e-12)))
        for e in c.each(N, name="f"):
            L = c.at(out, e)
            te, tl = c.at(c.torch.max(ti[:, ent], dim=1).values, e), c.at(c.torch.min(ti[:, lea], dim=1).values, e)
            for q in c.each(P, name="q"):
                c.cut("segment inside", [off(e, q), nv(q), c.ite(c.eq(nv(q), 0), 0, c.at(ti, e, q)), te, tl, L], [
                    lambda o, b, t, te, tl, L: c.implies(c.not_(c.eq(b, 0)), c.eq(t * b, 0 - o)),
                    lambda o, b, t, te, tl, L: c.implies(c.lt(b, 0), c.le(t, te)),
                    lambda o, b, t, te, tl, L: c.implies(c.lt(0, b), c.le(tl, t)),
                    lambda o, b, t, te, tl, L: c.implies(c.lt(0, L), c.eq(L, tl - te)),
                    lambda o, b, t, te, tl, L: c.implies(c.and_(c.lt(0, L), c.eq(b, 0)), c.le(o, 0))],
                    lambda o, b, t, te, tl, L: c.implies(c.lt(0, L), c.and_(c.le(o + te * b, 0), c.le(o + (te + L) * b, 0))), use=False)
    else:
        np = c.np
        nn, pp, vv, xx, o = np_(n), np_(p), np_(v), np_(x).reshape(-1, 3), np_(out)
        for e in range(N):
            # exact clipping of the line by one half space after another
            lo, hi, near = -1e9, 1e9, False
            for q in range(P):
                b, a = float(nn[q] @ vv), float(nn[q] @ (xx[e] - pp[q]))
                if abs(b) < 1e-14:
                    near |= abs(a) < 1e-9
                    near |= b != 0
                    if a > 0:
                        lo, hi = 1.0, 0.0
                        break
                elif b < 0:
                    lo = max(lo, -a / b)
                else:
                    hi = min(hi, -a / b)
            if near:
                continue
            c.ensure("length", abs(o[e] - max(0.0, hi - lo)) < 1e-7 * (1 + min(abs(lo), 1e6) + min(abs(hi), 1e6)))
        f = c.mod("utils")._clip_line_with_convex_polyhedron
        k = c.rng.uniform(-3, 3)
        c.ensure("direction sign", bool(np.allclose(np_(f(x, -v, p, n)), o, atol=1e-6, rtol=1e-6)))
        if not near_parallel(np, nn, vv):
            c.ensure("base point", bool(np.allclose(np_(f(x + k * v, v, p, n)), o, atol=1e-5, rtol=1e-5)))


def near_parallel(np, n, v):
    return bool((np.abs(n @ v) < 1e-12).any())
