"""C10  detector geometry: corners, pixel grid, where rays hit."""
import math
from engine.api import case
from contracts._scene import *

D = "detector.Detector."


def plane(c):
    """a detector plane: corner 0 and orthonormal edge directions (y, z); normal z x y"""
    R = c.rot("R", ())
    c0 = c.ten("c0", (3,), near=(-100, 100))
    y = [c.at(R, q, 1) for q in range(3)]
    z = [c.at(R, q, 2) for q in range(3)]
    n = [z[1] * y[2] - z[2] * y[1], z[2] * y[0] - z[0] * y[2], z[0] * y[1] - z[1] * y[0]]
    return c0, y, z, n


def vec3(c, xs):
    return c.const(xs) if not c.sym else c.fnten(lambda j: c.ite(c.eq(j, 0), xs[0], c.ite(c.eq(j, 1), xs[1], xs[2])), (3,))


def bare(c, c0, y, z, n, H=None, W=None):
    d = object.__new__(c.mod("detector").Detector)
    d.det_corner_0 = c0
    d.ydhat, d.zdhat, d.normal = vec3(c, y), vec3(c, z), vec3(c, n)
    d.zmax, d.ymax = H, W
    return d


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


@case("C10", [D + "__init__", D + "_get_pixel_coordinates"], samples=40, budget=30)
def construction(c):
    """edges, directions, normal, pixel sizes and pixel grid of a detector spanned by any two non-parallel edges"""
    kind = c.pick("pixels", ["n", "n-tuple", "size", "size-tuple"])
    if c.sym:
        c0, e1, e2 = c.ten("c0", (3,)), c.ten("e1", (3,)), c.ten("e2", (3,))
        a, e1, e2 = ([c.at(v, q) for q in range(3)] for v in (c0, e1, e2))
    else:
        c0, y, z, n = plane(c)
        H, W = c.real("H", 0, None, open=True, near=(1, 50)), c.real("W", 0, None, open=True, near=(1, 50))
        a, e1, e2 = [c.at(c0, q) for q in range(3)], [W * v for v in y], [H * v for v in z]
        if c.rng.random() < 0.3:
            e2 = [u + 0.4 * v for u, v in zip(e2, e1)]        # not a rectangle
    n = [e2[1] * e1[2] - e2[2] * e1[1], e2[2] * e1[0] - e2[0] * e1[2], e2[0] * e1[1] - e2[1] * e1[0]]
    W, H, A = c.sqrt(dot(e1, e1)), c.sqrt(dot(e2, e2)), c.sqrt(dot(n, n))
    if c.sym:
        c.assume(c.and_(c.lt(0, W), c.lt(0, H), c.lt(0, dot(n, n))))
        c.lemma("area", c.lt(0, A))
    c1, c2 = vec3(c, [a[q] + e1[q] for q in range(3)]), vec3(c, [a[q] + e2[q] for q in range(3)])
    if kind.startswith("n"):
        nz, ny = c.int("nz", 1, near=(1, 7)), c.int("ny", 1, near=(1, 7))
        if kind == "n":
            ny = nz
        d = c.mod("detector").Detector(c0, c1, c2, n_pixels=nz if kind == "n" else (nz, ny))
        pz, py = H / nz, W / ny
    else:
        pz, py = c.real("pz", 0, None, open=True, near=(0.5, 60)), c.real("py", 0, None, open=True, near=(0.5, 60))
        if kind == "size":
            py = pz
        d = c.mod("detector").Detector(c0, c1, c2, pixel_size=pz if kind == "size" else (pz, py))
    c.same("zmax", c.at(d.zmax), H)
    c.same("ymax", c.at(d.ymax), W)
    c.same("pixel z", c.at(d.pixel_size_z), pz)
    c.same("pixel y", c.at(d.pixel_size_y), py)
    zh, yh, nh = ([c.at(v, q) for q in range(3)] for v in (d.zdhat, d.ydhat, d.normal))
    for q in range(3):
        c.same("zdhat[%d]" % q, zh[q] * H, e2[q])
        c.same("ydhat[%d]" % q, yh[q] * W, e1[q])
        c.same("normal[%d]" % q, nh[q] * A, n[q])
    s = c.shape(d.pixel_coordinates)
    if kind.startswith("n"):
        c.same_shape("one pixel coordinate per requested pixel", d.pixel_coordinates, (nz, ny, 3))
    else:
        # the grid covers the edge and no pixel starts beyond it (1e-9 of a pixel is rounding)
        for m, p, L in ((s[0], pz, H), (s[1], py, W)):
            c.ensure("grid covers the edge", c.le(L, (m + 2e-9) * p))
            c.ensure("no pixel starts beyond the edge", c.lt((m - 1) * p, L))
    for i in c.each(s[0], name="i"):
        for j in c.each(s[1], name="j"):
            for q in range(3):
                c.same("pixel[%d]" % q, c.at(d.pixel_coordinates, i, j, q), a[q] + i * pz * zh[q] + j * py * yh[q])


@case("C10", [D + "__init__"], samples=5)
def pixel_arguments(c):
    """n_pixels and pixel_size exclude each other and one is needed"""
    c0, y, z, n = plane(c)
    a = [c.at(c0, q) for q in range(3)]
    c1, c2 = vec3(c, [a[q] + 7 * y[q] for q in range(3)]), vec3(c, [a[q] + 5 * z[q] for q in range(3)])
    D_ = c.mod("detector").Detector
    c.ensure("both refused", c.attempt(lambda: D_(c0, c1, c2, n_pixels=(2, 3), pixel_size=1.0), ValueError)[0])
    c.ensure("neither refused", c.attempt(lambda: D_(c0, c1, c2), ValueError)[0])


@case("C10", [D + "_get_intersection"], samples=60, budget=30)
def ray_hit(c):
    """the point with the returned coordinates is the point of the detector plane on the forward ray; none if the plane is behind"""
    if c.sym:
        c0 = c.ten("c0", (3,))
        y, z, n = ([c.at(v, q) for q in range(3)] for v in (c.ten("yhat", (3,)), c.ten("zhat", (3,)), c.unit("normal")))
        c.lemma("unit normal", c.eq(c.sqrt(dot(n, n)), 1))
    else:
        c0, y, z, n = plane(c)
    d = bare(c, c0, y, z, n)
    a = [c.at(c0, q) for q in range(3)]
    lay = c.pick("layout", ["batch", "single"])

    def ok(x, *i):
        k = [x(*(i[:-1] + (q,))) for q in range(3)]
        kn = dot(k, n)
        far = c.lt(0, dot(k, k)) if c.sym else dot(k, k) > 1e-2
        return c.and_(far, c.not_(c.eq(kn, 0)) if c.sym else abs(kn) > 1e-3)
    if lay == "single":
        N = 1
        k, src = c.ten("k", (3,), near=(-10, 10), where=ok), c.ten("src", (3,), near=(-50, 50))
        K, S = lambda e, q: c.at(k, q), lambda e, q: c.at(src, q)
    else:
        N = c.dim("N", 0)
        k, src = c.ten("k", (N, 3), near=(-10, 10), where=ok), c.ten("src", (N, 3), near=(-50, 50))
        K, S = lambda e, q: c.at(k, e, q), lambda e, q: c.at(src, e, q)
    ks, ss = c.snapshot(k), c.snapshot(src)
    out = d._get_intersection(k, src)
    c.same_shape("shape", out, (N, 3))
    c.unchanged("directions", k, ks)
    c.unchanged("sources", src, ss)
    for e in c.each(N, name="e"):
        kv, sv = [K(e, q) for q in range(3)], [S(e, q) for q in range(3)]
        kn = dot(kv, n)
        s = dot([a[q] - sv[q] for q in range(3)], n) / kn
        zd, yd, inc = (c.at(out, e, q) for q in range(3))
        behind = c.lt(s, 0)
        c.ensure("nothing behind", c.implies(behind, c.and_(c.isnan(zd), c.isnan(yd))))
        if c.sym or s >= 0:
            hit = [a[q] + zd * z[q] + yd * y[q] for q in range(3)]
            ray = [sv[q] + s * kv[q] for q in range(3)]
            # coordinates along the two edges
            rel = [ray[q] - a[q] for q in range(3)]
            c.ensure("finite", c.implies(c.not_(behind), c.and_(c.finite(zd), c.finite(yd))))
            if c.sym:
                c.ensure("zd", c.implies(c.not_(behind), c.eq(zd, dot(rel, z))))
                c.ensure("yd", c.implies(c.not_(behind), c.eq(yd, dot(rel, y))))
                c.ensure("in the plane", c.eq(dot(rel, n), 0))
            else:
                for q in range(3):
                    c.same("on the ray", hit[q], ray[q], tol=1e-7, scale=100 + abs(s) * 100)
        kk = c.sqrt(dot(kv, kv))
        if c.sym:
            # |k.n| <= |k|: Cauchy-Schwarz
            c.lemma("|k|", c.lt(0, kk))
            cr = [kv[1] * n[2] - kv[2] * n[1], kv[2] * n[0] - kv[0] * n[2], kv[0] * n[1] - kv[1] * n[0]]
            c.cut("cosine", [kn / kk, kk, kn] + cr, [lambda x, r, v, p, q, t: c.eq(x * r, v), lambda x, r, v, p, q, t: c.eq(r * r, v * v + p * p + q * q + t * t),
                                                 lambda x, r, v, p, q, t: c.lt(0, r)],
                  lambda x, r, v, p, q, t: c.and_(c.le(-1, x), c.le(x, 1)))
        c.same("angle to the normal", c.cos(inc * c.pi / 180) * kk, -kn, tol=1e-6)


@case("C10", [D + "_get_intersection"], sym=False, samples=60, bounded="random detector orientations; rays exactly along the normal, where roundoff decides")
def normal_incidence(c):
    """a ray along the normal hits at zero degrees (or 180 from behind)"""
    np, rng = c.np, c.rng
    d, c0, y, z, H, W = any_detector(c)
    n = np_(d.normal)
    for s in (1.0, -1.0):
        k = -s * n * 10 ** rng.uniform(-2, 2)
        p = c0 + y * rng.uniform(0, W) + z * rng.uniform(0, H)
        hit = np_(d._get_intersection(c.torch.tensor(k), c.torch.tensor(p - k * rng.uniform(1, 100))))[0]
        c.ensure("angle", abs(hit[2] - (0 if s > 0 else 180)) < 1e-4)
        c.same("zd", hit[0], (p - c0) @ z, tol=1e-6, scale=1e3)
        c.same("yd", hit[1], (p - c0) @ y, tol=1e-6, scale=1e3)


@case("C10", [D + "contains"], samples=60)
def on_detector(c):
    """exactly the coordinates between zero and the edge lengths, edges included; undefined coordinates are not on it"""
    d = object.__new__(c.mod("detector").Detector)
    H, W = c.real("H", 0, None, open=True, near=(0.5, 10)), c.real("W", 0, None, open=True, near=(0.5, 10))
    d.zmax, d.ymax = (H, W) if c.sym else (c.torch.tensor(H), c.torch.tensor(W))
    N = c.dim("N", 0)
    zd, yd = c.ten("zd", (N,), near=(-3, 12)), c.ten("yd", (N,), near=(-3, 12))
    out = d.contains(zd, yd)
    c.same_shape("shape", out, (N,))
    for e in c.each(N, name="e"):
        u, v = c.at(zd, e), c.at(yd, e)
        c.ensure("exact", c.iff(c.at(out, e), c.and_(c.le(0, u), c.le(u, H), c.le(0, v), c.le(v, W))))
    if not c.sym:
        nan = c.torch.tensor([float("nan")])
        c.ensure("undefined", not bool(d.contains(nan, nan)[0]))
        c.ensure("borders", bool(d.contains(c.torch.tensor([0.0]), c.torch.tensor([W]))[0]) and bool(d.contains(c.torch.tensor([H]), c.torch.tensor([0.0]))[0]))
