"""C03  no diffraction event is missed."""
from engine.api import case
from contracts.c02_laue import SOLVE, inputs, rhos


@case("C03", [SOLVE], samples=60)
def every_solution_is_reported(c):
    """every time in (0, 1) that solves the equation of a row is reported for that row, at most two per row"""
    n, p, g0, at = inputs(c)
    r0, r1, r2 = (c.ten("r%d" % i, (3,), near=(-10, 10)) for i in range(3))
    ang = c.real("angle", 0, c.pi, open=True, near=(0.01, c.pi))
    # an arbitrary time t in [0, 1], written t = 2 atan(s) / angle (a bijection as 0 < angle < pi)
    s = c.real("s", 0, None, near=(0, 100))
    t = 2 * c.atan(s) / ang
    c.assume(c.le(t, 1))
    f = c.mod("laue")._find_solutions_to_tangens_half_angle_equation
    g, h = c.int("g", 0, n - 1), c.int("h", 0, p - 1)
    if not c.sym:
        # solve for the coefficients: add a multiple of G to r2
        G = [at(g, q, h) for q in range(3)]
        a0, a1, a2 = rhos(c, at, r0, r1, r2, g, h)
        x = t * ang
        res = a2 + a0 * c.cos(x) + a1 * c.sin(x)
        nn = sum(v * v for v in G)
        c.assume(nn > 1e-3)
        r2 = r2 - c.torch.tensor([v * res / nn for v in G])
    a0, a1, a2 = rhos(c, at, r0, r1, r2, g, h)
    if c.sym:
        c.assume(c.eq((a2 - a0) * s * s + 2 * a1 * s + a2 + a0, 0))
        # G x = -x / 2 for no x: the equation is not the identity 0 = 0
    else:
        c.assume(a1 * a1 - a2 * a2 + a0 * a0 > 1e-6)      # well separated roots (floating point)
        c.assume(abs(a2 - a0) > 1e-6)
        c.assume(1e-9 < t < 1 - 1e-9)
    c.assume(c.not_(c.eq(a2, a0)))
    if c.sym:
        # the quadratic formula, step by step
        a, b = a1 / (a2 - a0), (a2 + a0) / (a2 - a0)
        D = a * a - b
        c.lemma("discriminant", c.eq(D, (s + a) * (s + a)))
        c.lemma("real-roots", c.le(0, D))
        r = c.sqrt(D)
        c.lemma("factored", c.eq((s + a - r) * (s + a + r), 0))
        c.lemma("root", c.or_(c.eq(s, -a + r), c.eq(s, -a - r)))
    grains, planes, times, G = f(g0, r0, r1, r2, ang)
    m = c.shape(times)[0]
    hits = c.count(m, lambda e: c.and_(c.eq(c.at(grains, e), g), c.eq(c.at(planes, e), h), c.eq(c.at(times, e), t, tol=1e-7)))
    c.ensure("reported", c.le(1, hits))
    c.ensure("at-most-the-two-roots", c.le(hits, 2))


@case("C03", [SOLVE], samples=60)
def linear_equation(c):
    """degenerate equations: exactly one root when the quadratic coefficient vanishes"""
    r0, r1 = c.ten("r0", (3,), near=(-10, 10)), c.ten("r1", (3,), near=(-10, 10))
    g0 = c.ten("G", (1, 3, 1), near=(-10, 10))
    G = [c.at(g0, 0, q, 0) for q in range(3)]
    ang = c.real("angle", 0, c.pi, open=True, near=(0.01, c.pi))
    nn = sum(v * v for v in G)
    if c.sym:
        r2 = c.ten("r2", (3,), near=(-10, 10))
        c.assume(c.eq(sum(c.at(r2, q) * G[q] for q in range(3)) + nn / 2.0, sum(c.at(r0, q) * G[q] for q in range(3))))
    else:
        # dyadic values make the cancellation exact in floating point
        import random
        g0 = c.torch.tensor([[[float(c.rng.randint(1, 3) * 2)], [0.0], [0.0]]])
        G = [g0[0, q, 0].item() for q in range(3)]
        r0 = c.torch.tensor([float(c.rng.randint(-6, 6)) / 4.0, 1.0, 2.0])
        r1 = c.torch.tensor([float(c.rng.randint(-6, 6)) / 4.0, 1.0, 2.0])
        r2 = c.torch.tensor([r0[0].item() - G[0] / 2.0, 0.25, 0.5])
    a0 = sum(c.at(r0, q) * G[q] for q in range(3))
    a1 = sum(c.at(r1, q) * G[q] for q in range(3))
    f = c.mod("laue")._find_solutions_to_tangens_half_angle_equation
    a2 = sum(c.at(r2, q) * G[q] for q in range(3)) + nn / 2.0 if c.sym else a0
    # 2 a1 s + 2 a0 = 0
    s = c.real("s", 0, None, near=(0, 100))
    if not c.sym:
        c.assume(a1 != 0)
        s = -a0 / a1
        c.assume(s > 1e-3 or s < -1e-3)
    t = 2 * c.atan(s) / ang
    if c.sym:
        c.assume(c.eq(a1 * s + a0, 0))
        c.assume(c.not_(c.eq(a1, 0)))
    c.assume(c.and_(c.le(1e-9, t), c.le(t, 1 - 1e-9)) if not c.sym else c.le(t, 1))
    if c.sym:
        c.lemma("root", c.eq(s, -(a2 + a0) / (2 * a1)))
    grains, planes, times, Gs = f(g0, r0, r1, r2, ang)
    m = c.shape(times)[0]
    hits = c.count(m, lambda e: c.eq(c.at(times, e), t, tol=1e-9))
    c.ensure("reported-once", c.eq(hits, 1))


def scene(c, spread=30.0, big=True):
    from contracts._scene import polycrystal_of, beam_of, unitv, motion_of
    pc, U, eps, pm, phases = polycrystal_of(c, spread=spread)
    beam = beam_of(c, wavelength=c.rng.choice([0.2, 0.285, 0.4]), direction=(1.0, 0.0, 0.0) if c.rng.random() < 0.5 else unitv(c), pol=unitv(c))
    return pc, U, eps, pm, phases, beam, motion_of(c, big=big)


def excess_of(np, k, ax, ang, G0, t):
    """f(t) = |k + R(t) G0|^2 - |k|^2 for planes G0 (n,3) on a time grid"""
    from contracts._scene import rodrigues
    R = np.array([rodrigues(np, ax, ang * x) for x in t])
    G = np.einsum("tij,nj->tni", R, G0)
    return 2 * G @ k + np.sum(G0 ** 2, axis=1)


@case("C03", ["polycrystal.Polycrystal.diffract", "polycrystal.Polycrystal._compute_peaks", SOLVE], sym=False, samples=15,
      bounded="random scenes; sign changes of the elastic condition on a grid of 400 times, planes of every phase up to 3-8 degrees")
def no_event_is_missed(c):
    """every time at which a plane of an illuminated crystal passes through the Ewald sphere is in the table, at most two per plane"""
    import math
    from contracts._scene import np_, strained_B, rodrigues
    np = c.np
    pc, U, eps, pm, phases, beam, rbm = scene(c)
    th = math.radians(c.rng.uniform(3, 8))
    pk = np_(pc.diffract(beam, rbm, max_bragg_angle=th, verbose=False)["peaks"])
    k, ax, ang, tr = np_(beam.wave_vector), np_(rbm.rotation_axis), float(rbm.rotation_angle), np_(rbm.translation)
    c.inputs["rows"] = [len(pk), ang, len(pm)]
    og = np_(rbm.origin).reshape(3)
    ts = np.linspace(0, 1, 401)
    expected = 0
    nodes = np_(pc.mesh_lab.coord)
    for e in range(len(pm)):
        ph = phases[pm[e]]
        hkl = np_(ph.miller_indices)
        if len(hkl) > 150:
            hkl = hkl[np.array(c.rng.sample(range(len(hkl)), 150))]
        G0 = hkl @ (U[e] @ strained_B(np, ph.unit_cell, U[e], eps[e])).T
        f = excess_of(np, k, ax, ang, G0, ts)
        rows = pk[pk[:, 0] == e]
        for n in range(len(hkl)):
            mine = rows[np.all(rows[:, 2:5] == hkl[n], axis=1), 6]
            c.ensure("at most two events per plane", len(mine) <= 2)
            flips = np.where(f[:-1, n] * f[1:, n] < 0)[0]
            for i in flips:
                a, b = ts[i], ts[i + 1]
                fa = f[i, n]
                for _ in range(45):
                    mid = 0.5 * (a + b)
                    fm = excess_of(np, k, ax, ang, G0[n:n + 1], [mid])[0, 0]
                    a, b, fa = (mid, b, fm) if fa * fm > 0 else (a, mid, fa)
                expected += 1
                c.ensure("event reported", bool(len(mine)) and float(np.min(np.abs(mine - a))) < 1e-6)
    c.inputs["expected"] = expected
    c.ensure("ran", True)


@case("C03", ["polycrystal.Polycrystal.diffract", "polycrystal.Polycrystal._compute_peaks", SOLVE], sym=False, samples=20,
      bounded="crystals turned to make a chosen plane diffract at a chosen time, one plane per sample")
def planted_event(c):
    """a crystal oriented to diffract at a chosen plane and time does so (also at the ends of the scan and of the Bragg range)"""
    import math
    from contracts._scene import np_, CELLS, rodrigues, euler_rot, beam_of, unitv, motion_of, tetra_mesh, lattice_B
    np = c.np
    cell, sg = CELLS[c.rng.randrange(len(CELLS))]
    wl = c.rng.choice([0.2, 0.285, 0.4])
    beam = beam_of(c, wavelength=wl, direction=(1.0, 0.0, 0.0) if c.rng.random() < 0.5 else unitv(c), pol=unitv(c))
    rbm = motion_of(c, big=True)
    k, ax, ang = np_(beam.wave_vector), np_(rbm.rotation_axis), float(rbm.rotation_angle)
    th = math.radians(c.rng.uniform(4, 9))
    ph = c.mod("phase").Phase(cell, sg)
    ph._setup_diffracting_planes(wl, 0.0, th)
    c.assume(len(ph.miller_indices) > 0)
    hkl = np_(ph.miller_indices)[c.rng.randrange(len(ph.miller_indices))]
    B = lattice_B(np, cell)
    g = B @ hkl
    n = np.linalg.norm(g)
    sin = n / (2 * np.linalg.norm(k))
    kh = k / np.linalg.norm(k)
    p = unitv(c)
    p = p - kh * (p @ kh)
    p = p / np.linalg.norm(p)
    G = n * (-sin * kh + math.sqrt(1 - sin * sin) * p)      # |k+G| = |k|
    t = c.rng.choice([c.rng.uniform(0.01, 0.99), c.rng.uniform(1e-5, 1e-3), 1 - c.rng.uniform(1e-5, 1e-3)])
    # speed of the crossing must not vanish (tangent: rounding decides)
    c.assume(abs(float(np.cross(ax, G) @ k)) > 1e-3 * n * np.linalg.norm(k))
    G0 = rodrigues(np, ax, ang * t).T @ G
    # U with U g = G0
    a, b = g / n, G0 / n
    v = np.cross(a, b)
    s, cs = np.linalg.norm(v), float(a @ b)
    U = rodrigues(np, v, math.atan2(s, cs)) if s > 1e-9 else np.eye(3)
    U = rodrigues(np, b, c.rng.uniform(0, 6.28)) @ U
    pc = c.mod("polycrystal").Polycrystal(tetra_mesh(c, 1, spread=20.0), U, np.zeros((3, 3)), ph)
    pk = np_(pc.diffract(beam, rbm, max_bragg_angle=th, verbose=False)["peaks"])
    c.inputs["scene"] = [list(map(float, hkl)), t, ang, len(pk)]
    mine = pk[np.all(pk[:, 2:5] == hkl, axis=1)] if len(pk) else pk
    c.ensure("reported", bool(len(mine)) and float(np.min(np.abs(mine[:, 6] - t))) < 1e-6)
