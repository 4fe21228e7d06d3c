"""C23  which lattice planes a simulation uses: Bragg limits, wrapping cone, plane generation."""
import itertools
import math
from engine.api import case, Skip
from contracts._scene import *

P, D = "polycrystal.Polycrystal.", "detector.Detector._get_wrapping_cone"


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


@case("C23", [D], samples=80, budget=40)
def wrapping_cone(c):
    """half of the largest angle between the wave vector and the directions to the four corners, whatever the placement"""
    d = object.__new__(c.mod("detector").Detector)
    if c.sym:
        c0, c1, c2, k, src = (c.ten(n, (3,)) for n in ("c0", "c1", "c2", "k", "src"))
    else:
        np, rng = c.np, c.rng
        kk = unitv(c) * 10 ** rng.uniform(-2, 2)
        R = euler_rot(np, rng)
        s = np.array([rng.uniform(-5, 5) for _ in range(3)])
        L, H, W = rng.uniform(10, 1e4), rng.uniform(1, 1e4), rng.uniform(1, 1e4)
        onaxis = rng.random() < 0.3
        o = s + (kk / np.linalg.norm(kk) * L if onaxis else R[:, 0] * L)
        u, v = R[:, 1] * W, R[:, 2] * H
        j = rng.randrange(4)
        o = o - [0 * u, u, v, u + v][j]             # the j-th corner may be in the beam line
        c0, c1, c2, k, src = (c.torch.tensor(x) for x in (o, o + u, o + v, kk, s))
    d.det_corner_0, d.det_corner_1, d.det_corner_2 = c0, c1, c2
    at = lambda t: [c.at(t, q) for q in range(3)]
    p, q, r = at(c0), at(c1), at(c2)
    corners = [p, q, r, [q[i] + r[i] - p[i] for i in range(3)]]
    kv, sv = at(k), at(src)
    if c.sym:
        c.assume(c.lt(0, dot(kv, kv)))
        for x in corners:
            w = [x[i] - sv[i] for i in range(3)]
            c.assume(c.lt(0, dot(w, w)))
    old = [c.snapshot(t) for t in (c0, c1, c2, k, src)]
    out = d._get_wrapping_cone(k, src)
    for t, o in zip((c0, c1, c2, k, src), old):
        c.unchanged("arguments", t, o)
    c.same_shape("one angle", out, ())
    got = c.at(out)
    nk = c.sqrt(dot(kv, kv))
    if not c.sym:
        want = 0.0
        for x in corners:
            w = np.array([float(x[i]) - float(sv[i]) for i in range(3)])
            want = max(want, math.atan2(np.linalg.norm(np.cross(w, kk)), float(w @ kk)))
        c.ensure("half of the largest angle", abs(float(got) - want / 2) < 1e-6)
        return
    cosines = []
    for n, x in enumerate(corners):
        w = [x[i] - sv[i] for i in range(3)]
        nw = c.sqrt(dot(w, w))
        # Cauchy-Schwarz
        cr = [kv[1] * w[2] - kv[2] * w[1], kv[2] * w[0] - kv[0] * w[2], kv[0] * w[1] - kv[1] * w[0]]
        e = sum(w[i] / nw * (kv[i] / nk) for i in range(3))
        c.lemma("lengths", c.and_(c.lt(0, nk), c.lt(0, nw)))
        c.cut("cosine", [e, nk * nw] + cr, [lambda y, r, a, b, g: c.eq(r * r, y * r * y * r + a * a + b * b + g * g), lambda y, r, a, b, g: c.lt(0, r)],
              lambda y, r, a, b, g: c.and_(c.le(-1, y), c.le(y, 1)))
        cosines.append(c.acos(e))
    top = c.max(c.max(cosines[0], cosines[1]), c.max(cosines[2], cosines[3]))
    c.same("half of the largest angle", 2 * got, top)


def sample(c, nph=1):
    pc = object.__new__(c.mod("polycrystal").Polycrystal)
    mesh = object.__new__(c.mod("mesh").TetraMesh)
    N = c.dim("NN", 1)
    mesh.coord = c.ten("coord", (N, 3), near=(-5, 5))
    mesh.centroid = c.ten("centroid", (3,), near=(-5, 5))
    pc.mesh_lab = mesh
    return pc, mesh, N


@case("C23", [P + "_get_bragg_angle_bounds"], samples=40)
def bounds(c):
    """the lower limit given, the cone of the detector seen from the mean of the illuminated nodes (the sample's centroid if there is none) as the upper one"""
    pc, mesh, N = sample(c)
    lit = c.ten("lit", (N,), dtype="bool")
    if not c.sym and c.rng.random() < 0.3:
        lit = lit & False
    asked = []

    def contains(pts):
        asked.append(pts)
        c.same_shape("points in columns", pts, (3, N))
        for i in c.each(N, name="i"):
            for q in range(3):
                c.same("nodes of the mesh", c.at(pts, q, i), c.at(mesh.coord, i, q))
        return lit
    beam = c.mod("beam").Beam.__new__(c.mod("beam").Beam)
    beam._contains = contains
    beam.wave_vector = c.ten("k", (3,))
    det = c.mod("detector").Detector.__new__(c.mod("detector").Detector)
    cone = c.ten("cone", (), 0, None, near=(0, 2))
    seen = []
    det._get_wrapping_cone = lambda k, s: (seen.append((k, s)), cone)[1]
    lo, hi = c.real("min", near=(-0.5, 2)), c.real("max", near=(0, 2))
    raised, r = c.attempt(lambda: pc._get_bragg_angle_bounds(det, beam, lo, hi), AssertionError, ValueError)
    c.ensure("one cone", len(seen) == 1 and len(asked) == 1)
    c.same_t("wave vector", seen[0][0], (3,), lambda q: c.at(beam.wave_vector, q))
    m = c.nselected((N,), lambda i: c.at(lit, i)) if c.sym else int(np_(lit).sum())
    src = seen[0][1]
    c.same_shape("source", src, (3,))
    none = c.eq(m, 0)
    for q in range(3):
        c.ensure("centroid if dark", c.implies(none, c.eq(c.at(src, q), c.at(mesh.centroid, q))))
        tot = c.sum((N,), lambda i: c.ite(c.at(lit, i), c.at(mesh.coord, i, q), 0.0))
        if c.sym:
            c.ensure("mean of the illuminated nodes", c.implies(c.not_(none), c.eq(c.at(src, q) * m, tot)))
        elif m:
            c.same("mean of the illuminated nodes", c.at(src, q) * m, tot, tol=1e-9, scale=50)
    c.ensure("refused", c.iff(raised, c.or_(c.lt(lo, 0), c.le(c.at(cone), lo))))
    if not raised:
        c.same("lower limit", r[0], lo)
        c.same("upper limit", r[1], c.at(cone))


@case("C23", [P + "diffract"], samples=30)
def every_phase(c):
    """every phase is set up with the beam's wavelength and the limits in force, before peaks are computed; without a detector those of the caller,
    or all planes up to backscattering"""
    n = c.pick("phases", [1, 2, 3])
    pc = object.__new__(c.mod("polycrystal").Polycrystal)
    lo, hi, args = c.real("min", 0, None, near=(0, 0.5)), c.real("max", 0, None, near=(0.6, 1.5)), {}
    given = c.pick("limits", [(1, 1), (0, 0), (1, 0), (0, 1)])
    if given[0]:
        args["min_bragg_angle"] = lo
    else:
        lo = 0
    if given[1]:
        args["max_bragg_angle"] = hi
    else:
        hi = c.pi / 2
    b_lo, b_hi = c.real("blo", 0, None, near=(0, 0.5)), c.real("bhi", 0, None, near=(0.6, 1.5))
    log = []
    pc.phases = []
    for i in range(n):
        ph = object.__new__(c.mod("phase").Phase)
        ph._setup_diffracting_planes = lambda wl, mn, mx, i=i: log.append((i, wl, mn, mx))
        pc.phases.append(ph)
    beam = object.__new__(c.mod("beam").Beam)
    beam.wavelength, beam.wave_vector = c.real("wavelength", 0, None, open=True, near=(0.01, 5)), c.ten("k", (3,))
    beam._contains = lambda x: c.torch.ones((c.shape(x)[1],), dtype=c.torch.bool)
    det = object()
    use = c.pick("detector", [0, 1])

    def bnd(d, b, mn, mx):
        c.ensure("limits of this detector and beam", d is det and b is beam)
        c.same("lower limit handed on", mn, lo)
        c.same("upper limit handed on", mx, hi)
        return b_lo, b_hi
    pc._get_bragg_angle_bounds = bnd

    def peaks(*a, **k):
        log.append("peaks")
        return c.ten("tab", (c.dim("M", 0), 24))
    pc._compute_peaks = peaks
    rbm = object.__new__(c.mod("motion").RigidBodyMotion)
    rbm.rotation_axis = c.unit("axis")
    pc.mesh_lab = object()
    pc.diffract(beam, rbm, detector=det if use else None, verbose=False, **args)
    c.ensure("every phase once, before the peaks", sorted(x[0] for x in log[:-1]) == list(range(n)) and log[-1] == "peaks")
    for x in log[:-1]:
        c.same("wavelength", x[1], beam.wavelength)
        c.same("lower limit", x[2], b_lo if use else lo)
        c.same("upper limit", x[3], b_hi if use else hi)


@case("C23", ["phase.Phase._setup_diffracting_planes"], samples=40)
def set_up(c):
    """the planes asked for are those of the phase's own cell and space group between the limits of this simulation, whatever the phase was set up for before;
    structure factors belong to these planes"""
    ph = c.mod("phase").Phase([4.0, 5.0, 6.0, 90.0, 90.0, 90.0], "P222")
    if c.sym:
        ph.unit_cell = [c.real("cell%d" % q, 0, None, open=True, near=(1, 9)) for q in range(6)]
    cif = c.pick("cif", [None, "some.cif"])
    ph.path_to_cif_file = cif
    calls, sfs, hkls = [], [], []
    tools = c.mod("phase").tools

    def gen(cell, lo, hi, sgname=None, sgno=None, cell_choice="standard", output_stl=False):
        calls.append((cell, lo, hi, sgname))
        c.ensure("planes only", not output_stl and sgno is None and cell_choice == "standard")
        hkls.append((c.dim("H%d" % len(hkls), 0), ))
        hkls[-1] += (c.ten("hkl%d" % len(hkls), (hkls[-1][0], 3), lib="np"),)
        return hkls[-1][1]
    keep = tools.genhkl_all
    tools.genhkl_all = gen
    ph._set_structure_factors = lambda m: sfs.append(m)
    try:
        for turn in range(c.pick("turns", [1, 2, 3])):
            n = "%d" % turn
            wl = c.real("wavelength" + n, 0, None, open=True, near=(0.01, 5))
            lo, hi = c.real("min" + n, 0, None, near=(0, 1.5)), c.real("max" + n, 0, None, near=(0, 1.5))
            if turn and c.pick("same wavelength" + n, [0, 1]):
                wl = wl0
            wl0, ns = wl, len(sfs)
            ph._setup_diffracting_planes(wl, lo, hi)
            c.ensure("generated", len(calls) > turn)
            if len(calls) <= turn:
                return
            c.ensure("group", calls[-1][3] == "P222" and len(calls[-1][0]) == 6)
            for q in range(6):
                c.same("cell", calls[-1][0][q], ph.unit_cell[q])
            c.same("lower limit", calls[-1][1] * wl, c.sin(lo))
            c.same("upper limit", calls[-1][2] * wl, c.sin(hi))
            H, hkl = hkls[-1]
            c.same_t("planes", ph.miller_indices, (H, 3), lambda i, q: c.at(hkl, i, q))
            c.ensure("structure factors if there is a cif", (len(sfs) > ns) == (cif is not None))
            for m in sfs[ns:]:
                c.same_t("structure factors of these planes", m, (H, 3), lambda i, q: c.at(hkl, i, q))
    finally:
        tools.genhkl_all = keep


@case("C23", ["laue._get_bragg_angle", "laue._get_sin_theta_and_norm_G"], samples=40)
def bragg_angle(c):
    """2 k sin(theta) = |G|"""
    n = c.dim("N", 0)
    wl = c.real("wavelength", 0, None, open=True, near=(0.01, 1))
    G = c.ten("G", (3, n), near=(-5, 5))
    g0 = c.snapshot(G)
    out = c.mod("laue")._get_bragg_angle(G, wl)
    s, norm = c.mod("laue")._get_sin_theta_and_norm_G(G, wl)
    c.unchanged("vectors", G, g0)
    c.same_shape("one per vector", out, (n,))
    c.same_shape("one per vector", s, (n,))
    c.same_shape("one per vector", norm, (n,))
    for i in c.each(n, name="i"):
        g = [c.at(G, q, i) for q in range(3)]
        g2 = dot(g, g)
        c.same("length", c.at(norm, i) * c.at(norm, i), g2)
        c.same("sine", c.at(s, i) * 4 * c.pi, c.at(norm, i) * wl)
        x = c.at(s, i)
        t = c.at(out, i)
        if c.sym:
            ok = c.le(x, 1)
            c.ensure("angle", c.implies(ok, c.and_(c.finite(t), c.eq(c.sin(t), x))))
        elif x <= 1:
            c.same("angle", math.sin(t), x)


# cells of all crystal systems with their groups
GROUPS = [("cubic", ["Pm-3m", "Fm-3m", "Im-3m", "Fd-3m", "P23", "Ia-3d", "P213"]), ("tetragonal", ["P4/mmm", "P41212", "I4/m", "I41/amd"]),
          ("orthorhombic", ["P222", "Pnma", "Cmcm", "Fddd", "Imma"]), ("hexagonal", ["P6/mmm", "P63/mmc", "P6122", "P6/m"]),
          ("trigonal", ["P3221", "P3121", "P-3", "P321"]), ("monoclinic", ["P21/c", "P2", "C2/c"]), ("triclinic", ["P1", "P-1"])]


@case("C23", ["phase.Phase._setup_diffracting_planes"], sym=False, samples=25,
      bounded="random cells of 28 space groups of the seven crystal systems, some hundred planes each; absences from the symmetry operations of the group")
def all_planes(c):
    """against enumeration of all indices: each plane between the limits not extinct by a symmetry operation, once; nothing else"""
    np, rng = c.np, c.rng
    from xfab import sg, tools
    system, names = GROUPS[rng.randrange(len(GROUPS))]
    name = names[rng.randrange(len(names))]
    a, b, d = (rng.uniform(3, 7) for _ in range(3))
    cell = {"cubic": [a, a, a, 90, 90, 90], "tetragonal": [a, a, d, 90, 90, 90], "orthorhombic": [a, b, d, 90, 90, 90], "hexagonal": [a, a, d, 90, 90, 120],
            "trigonal": [a, a, d, 90, 90, 120], "monoclinic": [a, b, d, 90, rng.uniform(85, 110), 90], "triclinic": [a, b, d] + [rng.uniform(80, 100) for _ in range(3)]}[system]
    cell = [float(x) for x in cell]
    wl = rng.uniform(0.1, 0.6)
    lo, hi = sorted([rng.uniform(0, 0.2) if rng.random() < 0.5 else 0.0, math.asin(min(1, wl * rng.uniform(0.3, 0.55)))])
    ph = c.mod("phase").Phase(cell, name)
    for _ in range(rng.randrange(3)):               # used before, for other limits
        a_, b_ = sorted([rng.uniform(0, 0.2), math.asin(min(1, wl * rng.uniform(0.2, 0.55)))])
        ph._setup_diffracting_planes(rng.choice([wl, wl, 0.9 * wl]), a_, b_)
    ph._setup_diffracting_planes(wl, lo, hi)
    got = {}
    for h in np.asarray(ph.miller_indices):
        k = tuple(int(round(x)) for x in h)
        c.ensure("integer indices", bool((abs(h - k) < 1e-9).all()))
        got[k] = got.get(k, 0) + 1
    c.ensure("once", all(v == 1 for v in got.values()))
    s = sg.sg(sgname=name)
    B = lattice_B(np, cell)
    R = int(max(cell[:3]) * 2 * math.sin(hi) / wl * 1.3) + 2
    hs = np.array(list(itertools.product(range(-R, R + 1), repeat=3)), float)
    th = wl * np.linalg.norm(hs @ B.T, axis=1) / (4 * np.pi)
    near = (th > math.sin(lo) - 1e-9) & (th < math.sin(hi) + 1e-9) & (np.abs(hs).sum(1) > 0)
    wanted = set()
    for h, x in zip(hs[near], th[near]):
        extinct = False
        for r, t in zip(s.rot, s.trans):
            if np.abs(h @ r - h).max() < 1e-6:
                q = h @ t
                extinct = extinct or abs(q - round(q)) > 0.01
        k = tuple(int(v) for v in h)
        border = min(abs(x - math.sin(lo)), abs(x - math.sin(hi))) < 1e-9
        if extinct:
            c.ensure("allowed by the space group", k not in got)
        elif not border:
            wanted.add(k)
            c.ensure("generated", k in got)
    for k in got:
        x = wl * np.linalg.norm(B @ np.array(k, float)) / (4 * np.pi)
        c.ensure("between the limits", math.sin(lo) - 1e-9 < x < math.sin(hi) + 1e-9)
