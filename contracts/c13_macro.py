"""C13  macro rendering: the projection of the illuminated part of a crystal."""
import math
import types
from engine.api import case, Skip
from contracts._scene import *
from contracts.c17_beam import clip_tets, tets_volume, planes_of, convex_points, flat

D = "detector.Detector."
BOX, PRO, REN = D + "_get_projected_bounding_box", D + "_project_convex_hull", D + "_render_projected_volumes"


@case("C13", [BOX, D + "_detector_coordinate_to_pixel_index"], samples=80)
def bounding_box(c):
    """the pixels between the smallest and the largest projected corner on the detector; nothing if the corners are all off to one side"""
    c.use_pairs()
    d = object.__new__(c.mod("detector").Detector)
    V = c.dim("V", 1)
    nz, ny = c.dim("nz", 1), c.dim("ny", 1)
    pz, py = c.real("pz", 0, None, open=True, near=(0.1, 3)), c.real("py", 0, None, open=True, near=(0.1, 3))
    # the grid covers the edges, the last pixel may be cut
    H, W = c.real("H", 0, None, open=True), c.real("W", 0, None, open=True)
    if not c.sym:
        H, W = [n * p - (c.rng.choice([0.0, c.rng.uniform(0, 0.9)]) * p) for n, p in ((nz, pz), (ny, py))]
    else:
        for n, p, L in ((nz, pz, H), (ny, py, W)):
            c.assume(c.and_(c.lt((n - 1) * p, L), c.le(L, n * p)))
    d.pixel_coordinates = c.ten("grid", (nz, ny, 3))
    d.pixel_size_z, d.pixel_size_y, d.zmax, d.ymax = (pz, py, H, W) if c.sym else [c.torch.tensor(x) for x in (pz, py, H, W)]
    # projected corners; a corner behind the detector plane has none
    z, y, miss = c.ten("z", (V,), near=(-3, 12)), c.ten("y", (V,), near=(-3, 12)), c.ten("miss", (V,), dtype="bool")
    if not c.sym and c.rng.random() < 0.5:
        miss = miss & False
    nan = float("nan")
    hull = types.SimpleNamespace(vertices=c.ten("vertex", (V,), 0, V - 1, dtype="int", lib="np"), points=c.ten("points", (V, 3), lib="np"))
    k = c.ten("k", (3,))
    calls = []

    def hit(dirs, pts):
        calls.append(1)
        c.same_shape("rays", dirs, (V, 3))
        c.same_shape("corners", pts, (V, 3))
        for e in c.each(V, name="e"):
            for q in range(3):
                c.same("along the scattered wave", c.at(dirs, e, q), c.at(k, q))
                c.same("from the corners of the hull", c.at(pts, e, q), c.at(hull.points, c.at(hull.vertices, e), q))
        return c.fnten(lambda e, q: c.ite(c.at(miss, e), c.ite(c.eq(q, 2), 0.0, nan), c.ite(c.eq(q, 0), c.at(z, e), c.ite(c.eq(q, 1), c.at(y, e), 0.0))), (V, 3))
    d._get_intersection = hit
    box = d._get_projected_bounding_box({"convex_hull": hull, "scattered_wave_vector": k})
    c.ensure("projected once", len(calls) == 1)
    off = []
    for t, L in ((z, H), (y, W)):
        off += [c.forall(V, lambda e: c.or_(c.at(miss, e), c.lt(c.at(t, e), 0))), c.forall(V, lambda e: c.or_(c.at(miss, e), c.lt(L, c.at(t, e))))]
    c.ensure("none exactly if nothing is on the detector", c.iff(box is None, c.or_(*off)))
    if box is None:
        return
    for lo, hi, t, L, p, n in ((box[0], box[1], z, H, pz, nz), (box[2], box[3], y, W, py, ny)):
        c.ensure("within the grid", c.and_(c.le(0, lo), c.le(hi, n), c.le(lo, hi)))
        for e in c.each(V, name="e"):
            i = c.floor(c.at(t, e) / p)
            on = c.and_(c.not_(c.at(miss, e)), c.le(0, c.at(t, e)), c.le(c.at(t, e), L))
            # a corner exactly on the far edge of the grid is beyond its last pixel
            c.ensure("corner in the box", c.implies(c.and_(on, c.lt(i, n)), c.and_(c.le(lo, i), c.lt(i, hi))))
        clip = lambda e: c.max(0.0, c.min(c.at(t, e), L))
        c.ensure("not larger: first", c.not_(c.forall(V, lambda e: c.or_(c.at(miss, e), c.le((lo + 1) * p, clip(e))))))
        c.ensure("not larger: last", c.not_(c.forall(V, lambda e: c.or_(c.at(miss, e), c.lt(clip(e), (hi - 1) * p)))))


def hull_of(c):
    """faces (unit outward normal, offset) and volume; in concrete runs the hull of random points"""
    if c.sym:
        F = c.dim("F", 1)
        return types.SimpleNamespace(equations=c.ten("faces", (F, 4), lib="np"), volume=c.real("volume", 0, None, open=True)), F
    from scipy.spatial import ConvexHull
    h = ConvexHull(convex_points(c))
    return h, len(h.equations)


def clipper(c, hull, F, kv, seen):
    """contract of the line clipping (C21): a length per line, not negative"""
    def clip(points, direction, pp, pn):
        m = c.shape(points)[0]
        lengths = c.ten("length", (m,), 0, None, near=(0, 5))
        if not c.sym and c.rng.random() < 0.1:
            lengths = lengths * 0
        seen.append((points, lengths))
        c.same_shape("lines", points, (m, 3))
        c.same_shape("direction", direction, (3,))
        nk = c.sqrt(sum(x * x for x in kv))
        for q in range(3):
            c.same("along the scattered wave", c.at(direction, q) * nk, kv[q])
        c.same_shape("points of the faces", pp, (F, 3))
        c.same_shape("normals of the faces", pn, (F, 3))
        for f in c.each(F, name="f"):
            e = [c.at(hull.equations, f, q) for q in range(4)]
            for q in range(3):
                c.same("outward normal", c.at(pn, f, q), e[q])
            n2 = sum(x * x for x in e[:3])
            # the normals have length one
            c.same("on the face", sum(c.at(pp, f, q) * e[q] for q in range(3)), -e[3] * n2, tol=1e-6, scale=1 + abs(e[3]) if not c.sym else None)
        return c.snapshot(lengths)
    c.mod("utils")._clip_line_with_convex_polyhedron = clip


@case("C13", [PRO], samples=60)
def pixel_rays(c):
    """a box of more than four pixels: each pixel's share of the volume is in proportion to the length of its ray inside of the hull"""
    hull, F = hull_of(c)
    d = object.__new__(c.mod("detector").Detector)
    h, w = c.dim("h", 1), c.dim("w", 1)
    r0, c0 = c.int("r0", 0, None if c.sym else 5), c.int("c0", 0, None if c.sym else 5)
    nz, ny = c.dim("nz", 1), c.dim("ny", 1)
    if c.sym:
        c.assume(c.and_(c.le(r0 + h, nz), c.le(c0 + w, ny), c.lt(4, h * w)))
    else:
        nz, ny = r0 + h + c.rng.randint(0, 2), c0 + w + c.rng.randint(0, 2)
        if h * w <= 4:
            raise Skip()
    d.pixel_coordinates = c.ten("grid", (nz, ny, 3), near=(-9, 9))
    k = c.ten("k", (3,), near=(-5, 5))
    kv = [c.at(k, q) for q in range(3)]
    c.assume(c.lt(0 if c.sym else 1e-6, sum(x * x for x in kv)))
    seen = []
    clipper(c, hull, F, kv, seen)
    grid = c.snapshot(d.pixel_coordinates)
    out = d._project_convex_hull({"convex_hull": hull, "scattered_wave_vector": k}, (r0, r0 + h, c0, c0 + w))
    c.unchanged("pixel coordinates", d.pixel_coordinates, grid)
    c.ensure("clipped once", len(seen) == 1)
    rays, L = seen[0]
    c.same_shape("one ray per pixel", rays, (h * w, 3))
    tot = c.sum((h * w,), lambda e: c.at(L, e))
    c.same_shape("one value per pixel of the box", out, (h, w))
    for i in c.each(h, name="i"):
        for j in c.each(w, name="j"):
            e = i * w + j
            for q in range(3):
                c.same("through the pixel", c.at(rays, e, q), c.at(grid, r0 + i, c0 + j, q))
            v = c.at(out, i, j)
            c.ensure("not negative", c.le(0, v))
            if c.sym:
                c.ensure("share", c.implies(c.lt(0, tot), c.eq(v * tot, c.at(L, e) * hull.volume)))
                c.ensure("nothing if no ray meets the hull", c.implies(c.le(tot, 0), c.eq(v, c.at(L, e))))
            else:
                c.same("share", v * tot, c.at(L, e) * hull.volume, tol=1e-6, scale=hull.volume * tot)


@case("C13", [PRO], samples=30)
def one_pixel(c):
    """a box of one pixel gets the whole volume"""
    hull, F = hull_of(c)
    d = object.__new__(c.mod("detector").Detector)
    r0, c0 = c.int("r0", 0, None if c.sym else 5), c.int("c0", 0, None if c.sym else 5)
    k = c.ten("k", (3,), near=(1, 5))
    out = d._project_convex_hull({"convex_hull": hull, "scattered_wave_vector": k}, (r0, r0 + 1, c0, c0 + 1))
    c.same_shape("one pixel", out, (1, 1))
    c.same("volume", c.at(out, 0, 0), hull.volume)


@case("C13", [PRO], samples=60)
def sampled_rays(c):
    """a box of two to four pixels: each pixel's share of the volume is in proportion to the lengths of the rays through sampled points of the hull that hit it"""
    hull, F = hull_of(c)
    d = object.__new__(c.mod("detector").Detector)
    h, w = c.pick("box", [(1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1)])
    r0, c0 = c.int("r0", 0, None if c.sym else 5), c.int("c0", 0, None if c.sym else 5)
    pz, py = c.real("pz", 0, None, open=True, near=(0.1, 3)), c.real("py", 0, None, open=True, near=(0.1, 3))
    d.pixel_size_z, d.pixel_size_y = (pz, py) if c.sym else (c.torch.tensor(pz), c.torch.tensor(py))
    k = c.ten("k", (3,), near=(-5, 5))
    kv = [c.at(k, q) for q in range(3)]
    c.assume(c.lt(0 if c.sym else 1e-6, sum(x * x for x in kv)))
    seen = []
    clipper(c, hull, F, kv, seen)
    asked, given = [], []

    def draw(hl, n):
        c.ensure("sampled from this hull", hl is hull and n >= 1)
        asked.append(c.ten("sampled", (n, 3), lib="np"))
        return asked[-1]
    c.mod("utils")._sample_convex_hull_3d = draw

    def hit(dirs, p):
        nk = c.sqrt(sum(x * x for x in kv))
        m = c.shape(asked[0])[0]
        u, v = c.ten("u", (m,), near=(-1, 8)), c.ten("v", (m,), near=(-1, 8))
        if not c.sym:
            u, v = (c.torch.tensor([p_ * (o + c.rng.uniform(-0.5, s_ + 0.5)) for _ in range(m)]) for p_, o, s_ in ((pz, r0, h), (py, c0, w)))
        given.append((u, v))
        c.same_shape("rays", dirs, (m, 3))
        c.same_shape("points", p, (m, 3))
        for e in (0, m - 1):
            for q in range(3):
                c.same("along the scattered wave", c.at(dirs, e, q) * nk, kv[q])
                c.same("from the sampled points", c.at(p, e, q), c.at(asked[0], e, q))
        return c.fnten(lambda e, q: c.ite(c.eq(q, 0), c.at(u, e), c.ite(c.eq(q, 1), c.at(v, e), 0.0)), (m, 3))
    d._get_intersection = hit
    out = d._project_convex_hull({"convex_hull": hull, "scattered_wave_vector": k}, (r0, r0 + h, c0, c0 + w))
    c.ensure("sampled and clipped once", len(asked) == 1 and len(seen) == 1 and len(given) == 1)
    (u, v), (rays, L), m = given[0], seen[0], c.shape(asked[0])[0]
    for e in (0, m - 1):
        for q in range(3):
            c.same("clipped at the sampled points", c.at(rays, e, q), c.at(asked[0], e, q))
    c.same_shape("one value per pixel of the box", out, (h, w))
    trunc = lambda x: c.ite(c.lt(x, 0), -c.floor(-x), c.floor(x))
    inbox = lambda e, i, j: c.and_(c.eq(trunc(c.at(u, e) / pz), r0 + i), c.eq(trunc(c.at(v, e) / py), c0 + j))
    share = {(i, j): c.sum_nonneg(m, lambda e, i=i, j=j: c.ite(inbox(e, i, j), c.at(L, e), 0.0)) for i in range(h) for j in range(w)}
    tot = sum(share.values())
    for (i, j), s in share.items():
        x = c.at(out, i, j)
        c.ensure("not negative", c.le(0, x))
        if c.sym:
            c.ensure("share", c.implies(c.lt(0, tot), c.eq(x * tot, s * hull.volume)))
            c.ensure("nothing if no ray hits the box", c.implies(c.le(tot, 0), c.eq(x, 0)))
        else:
            c.same("share", x * tot, s * hull.volume, tol=1e-6, scale=hull.volume * tot)


def splice(c, box, f):
    """f inside of the box, zero elsewhere"""
    if not c.sym:
        return lambda i, j: f(i - box[0], j - box[2]) if box[0] <= i < box[1] and box[2] <= j < box[3] else 0.0
    return lambda i, j: c.ite(c.and_(c.le(box[0], i), c.lt(i, box[1]), c.le(box[2], j), c.lt(j, box[3])), f(i - box[0], j - box[2]), 0.0)


@case("C13", [REN], samples=40, budget=40, bounded="tables of up to three peaks in up to three frames (loops over peaks unrolled)")
def frames(c):
    """each peak adds, in its own frame and box, intensity factor times pixel area times the projection of the part of its crystal in the beam at its time"""
    d = object.__new__(c.mod("detector").Detector)
    H, W, E = c.dim("H", 1), c.dim("W", 1), c.dim("E", 1)
    pz, py = c.real("pz", 0, None, open=True, near=(0.1, 3)), c.real("py", 0, None, open=True, near=(0.1, 3))
    d.pixel_size_z, d.pixel_size_y = (pz, py) if c.sym else (c.torch.tensor(pz), c.torch.tensor(py))
    d.pixel_coordinates, d._verbose = c.ten("grid", (H, W, 3)), False
    d.det_corner_0 = c.ten("c0", (3,))
    of = c.pick("frames of the peaks", [(), (0,), (1,), (0, 0), (2, 0), (1, 2, 1)])
    M, F = len(of), 3
    tab = c.ten("tab", (M, 30), near=(-5, 5))
    grain = c.ten("grain", (M,), 0, E - 1, dtype="int")
    infinite = c.ten("infinite", (M,), dtype="bool")
    frame = lambda e: sum(c.ite(c.eq(e, k), float(of[k]), 0.0) for k in range(M))
    pk = c.fnten(lambda e, q: c.ite(c.eq(q, 28), frame(e), c.ite(c.eq(q, 0), c.at(grain, e), c.ite(c.and_(c.eq(q, 29), c.at(infinite, e)), math.inf, c.at(tab, e, q)))) if M else 0.0, (M, 30))
    mesh = types.SimpleNamespace()
    NN = c.dim("NN", 4)
    mesh.coord = c.ten("coord", (NN, 3), near=(-5, 5))
    mesh.enod = c.ten("enod", (E, 4), 0, NN - 1, dtype="int")
    moved, cut, boxed, projected = [], [], [], []
    MV = c.ten("moved", (M, 4, 3), near=(-5, 5))
    if not c.sym:
        MV = MV + 20 * c.torch.arange(M, dtype=MV.dtype)[:, None, None]        # told apart by their position

    def motion(v, t):
        moved.append(1)
        c.same_shape("corners of every peak's crystal", v, (M, 4, 3))
        c.same_shape("times", t, (M,))
        for e in range(M):
            c.same("at the time of the event", c.at(t, e), c.at(pk, e, 6))
            for a in range(4):
                for q in range(3):
                    c.same("corners of the crystal", c.at(v, e, a, q), c.at(mesh.coord, c.at(mesh.enod, c.at(grain, e), a), q))
        return MV
    lit = [bool(c.bool("lit%d" % e)) for e in range(M)]
    on = [bool(c.bool("on%d" % e)) for e in range(M)]

    def intersect(v):
        c.same_shape("one crystal", v, (4, 3))
        x = c.at(v, 0, 0)
        e = next((e for e in range(M) if (x.v is c.at(MV, e, 0, 0).v if c.sym else float(x) == float(c.at(MV, e, 0, 0)))), None)
        if e is None:
            c.fail("cuts something else than a moved crystal")
        cut.append(e)
        for a in range(4):
            for q in range(3):
                c.same("moved corners", c.at(v, a, q), c.at(MV, e, a, q))
        return types.SimpleNamespace(peak=e) if lit[e] else None
    beam = types.SimpleNamespace(_intersect=intersect)
    boxes, prs = {}, {}
    for e in range(M):
        if c.sym:
            b = [c.int("b%d%d" % (e, q), 0) for q in range(4)]
            c.assume(c.and_(c.le(b[0], b[1]), c.le(b[1], H), c.le(b[2], b[3]), c.le(b[3], W)))
        else:
            b = sorted(c.rng.randint(0, H) for _ in range(2)) + sorted(c.rng.randint(0, W) for _ in range(2))
        boxes[e] = tuple(b)
        prs[e] = c.fnten(lambda i, j, e=e, P=c.ten("projection%d" % e, (H, W), near=(0, 5)): c.at(P, i, j), (b[1] - b[0], b[3] - b[2]))

    def check(ctx):
        e = ctx["convex_hull"].peak
        for q in range(3):
            c.same("scattered wave of the peak", c.at(ctx["scattered_wave_vector"], q), c.at(pk, e, 13 + q))
        return e

    def bounding(ctx):
        e = check(ctx)
        boxed.append(e)
        return boxes[e] if on[e] else None

    def project(ctx, box):
        e = check(ctx)
        projected.append(e)
        c.ensure("box of this peak", box is boxes[e])
        return prs[e]
    d._get_projected_bounding_box, d._project_convex_hull = bounding, project
    u, v = c.real("psf u", near=(0, 1)), c.real("psf v", near=(0, 1))
    pi, pj = c.int("pi", 0, H - 1), c.int("pj", 0, W - 1)
    spread = lambda g: (lambda i, j: u * g(i, j) + v * g(pi, pj))        # any linear map stands for the point spread

    def conv(f):
        c.same_shape("one frame", f, (H, W))
        s = c.snapshot(f)
        return c.fnten(spread(lambda i, j: c.at(s, i, j)), (H, W))
    d._conv2d_gaussian_kernel = conv
    old = c.snapshot(pk)
    out = d._render_projected_volumes(pk, beam, mesh, motion, F, c.torch.float64)
    c.unchanged("peaks", pk, old)
    c.same_shape("one image per frame", out, (F, H, W))
    c.ensure("every crystal is cut once", sorted(cut) == list(range(M)))
    for f in range(F):
        spots = [(e, splice(c, boxes[e], lambda i, j, e=e: c.at(prs[e], i, j))) for e in range(M) if of[e] == f and lit[e] and on[e]]

        def total(i, j):
            t = 0.0
            for e, s in spots:
                t = t + c.ite(c.at(infinite, e), 0.0, c.at(tab, e, 29) * pz * py * s(i, j))
            return t
        for i in c.each(H, name="i"):
            for j in c.each(W, name="j"):
                c.same("pixel", c.at(out, f, i, j), spread(total)(i, j), tol=1e-6)


def ball(c, r, n=14):
    np = c.np
    return np.array([unitv(c) for _ in range(n)]) * r


@case("C13", [REN, PRO, BOX, "beam.Beam._intersect", "motion.RigidBodyMotion.__call__", "utils._clip_line_with_convex_polyhedron", "utils._sample_convex_hull_3d", D + "_conv2d_gaussian_kernel"],
      sym=False, samples=25, bounded="random scenes of one to four tetrahedra, box beams of any orientation, tilted detectors of up to 30 x 30 pixels")
def scene(c):
    """images against the chord lengths of the pixel rays in the crystal's faces and the beam's, and volumes clipped plane by plane"""
    np, rng, torch = c.np, c.rng, c.torch
    n = rng.randint(1, 3)
    size = 10.0 ** rng.uniform(-0.5, 1)
    mesh = tetra_mesh(c, n, spread=2 * size, size=size)
    mesh.coord, mesh.enod = torch.tensor(np_(mesh.coord)), torch.tensor(np_(mesh.enod)).to(torch.int32)
    L = rng.uniform(60, 300)
    px = size * rng.choice([rng.uniform(0.15, 1.0), rng.uniform(1, 12)])
    nz, ny = rng.randint(4, 30), rng.randint(4, 30)
    det, c0, y, z, H, W = any_detector(c, distance=L, size=(nz * px, ny * px), n_pixels=(nz, ny))
    det.gaussian_kernel = torch.ones(1, 1)
    det._verbose = False
    m = motion_of(c)
    a = box(np, (-4 * size, 4 * size), (-rng.uniform(0.2, 4) * size, rng.uniform(0.2, 4) * size) * 2) @ rodrigues(np, unitv(c), rng.uniform(0, 1)).T
    beam = object.__new__(c.mod("beam").Beam)
    beam.set_beam_vertices(torch.tensor(a))
    planes = planes_of(np, a)
    M, F = rng.randint(1, 4), 2
    pk = np.zeros((M, 30))
    cen = c0 + y * W / 2 + z * H / 2
    for e in range(M):
        k = cen + y * W * rng.uniform(-0.55, 0.55) + z * H * rng.uniform(-0.55, 0.55)
        pk[e, 0], pk[e, 6], pk[e, 13:16], pk[e, 28], pk[e, 29] = rng.randrange(n), rng.random(), k / np.linalg.norm(k) * rng.uniform(1, 40), rng.randrange(F), rng.uniform(0.1, 5)
    out = np_(det._render_projected_volumes(torch.tensor(pk), beam, mesh, m, F, torch.float64))
    c.ensure("shape", out.shape == (F, nz, ny))
    c.ensure("no pixel undefined or negative", bool((out >= 0).all()))
    pz, py = float(det.pixel_size_z), float(det.pixel_size_y)
    want, slack, rays = np.zeros((F, nz, ny)), np.zeros((F, nz, ny)), True
    for e in range(M):
        v = np_(mesh.coord)[np_(mesh.enod)[int(pk[e, 0])]]
        w = np.array([np_(m(torch.tensor(p[None]), torch.tensor(pk[e, 6])))[0] for p in v])
        tets = [w]
        for q in planes:
            tets = clip_tets(np, tets, q[:3], q[3])
        vol = tets_volume(np, tets)
        full = tets_volume(np, [w])
        if vol < 1e-3 * full:
            if vol > 0:
                raise Skip()
            continue
        k = pk[e, 13:16] / np.linalg.norm(pk[e, 13:16])
        pts = np.vstack(tets)
        nrm = np.cross(z, y)
        s = ((c0 - pts) @ nrm) / (k @ nrm)
        hit = pts + s[:, None] * k
        if (s < 0).any():
            raise Skip()
        zd, yd = (hit - c0) @ z, (hit - c0) @ y
        lo, hi = [zd.min() / pz, yd.min() / py], [zd.max() / pz, yd.max() / py]
        if hi[0] < 0 or hi[1] < 0 or lo[0] > nz or lo[1] > ny:
            continue
        r0, r1 = max(0, math.floor(lo[0])), min(nz, math.floor(min(hi[0], nz)) + 1)
        q0, q1 = max(0, math.floor(lo[1])), min(ny, math.floor(min(hi[1], ny)) + 1)
        if min(abs(t - round(t)) for t in lo + hi) < 1e-3:
            raise Skip()
        f, area = int(pk[e, 28]), pz * py
        total = pk[e, 29] * vol * area
        if (r1 - r0) * (q1 - q0) == 1:
            want[f, r0, q0] += total
            slack[f, r0, q0] += 1e-2 * total
            continue
        if (r1 - r0) * (q1 - q0) <= 4:
            rays = False                # sampled: only the total of the box is known
            want[f, r0:r1, q0:q1] += total / ((r1 - r0) * (q1 - q0))
            slack[f, r0:r1, q0:q1] += total
            continue
        # length of the pixel's ray inside of all planes of crystal and beam
        E = np.vstack([planes, planes_of(np, w)])
        L_ = np.zeros((r1 - r0, q1 - q0))
        for i in range(r0, r1):
            for j in range(q0, q1):
                p = c0 + i * pz * z + j * py * y
                t0, t1 = -1e9, 1e9
                for g in E:
                    u, d = g[:3] @ k, g[:3] @ p + g[3]
                    if abs(u) < 1e-12:
                        t1 = -1e9 if d > 0 else t1
                    elif u > 0:
                        t1 = min(t1, -d / u)
                    else:
                        t0 = max(t0, -d / u)
                L_[i - r0, j - q0] = max(0, t1 - t0)
        if 0 < L_.sum() < 1e-2 * size:
            raise Skip()
        if L_.sum() > 0:
            want[f, r0:r1, q0:q1] += L_ / L_.sum() * total
        slack[f, r0:r1, q0:q1] += 2e-3 * total
    if rays:
        c.ensure("pixels", bool((abs(out - want) <= slack + 1e-9).all()))
    for f in range(F):
        c.ensure("total of a frame", abs(out[f].sum() - want[f].sum()) <= 1e-2 * want[f].sum() + 1e-9 or not rays)
