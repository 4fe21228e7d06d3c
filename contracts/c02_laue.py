"""C02  every reported diffraction event is physical."""
import math
from engine.api import case
from contracts._scene import *

SOLVE = "laue._find_solutions_to_tangens_half_angle_equation"


def inputs(c, two_d=False, hi=None):
    n, p = c.dim("n", 0, hi), c.dim("p", 0, hi)
    if two_d:
        n = 1
        g0 = c.ten("G", (3, p), near=(-10, 10))
        at = lambda g, q, h: c.at(g0, q, h)
    else:
        g0 = c.ten("G", (n, 3, p), near=(-10, 10))
        at = lambda g, q, h: c.at(g0, g, q, h)
    return n, p, g0, at


def rhos(c, at, r0, r1, r2, g, h):
    G = [at(g, q, h) for q in range(3)]
    d = lambda r: sum(c.at(r, q) * G[q] for q in range(3))
    return d(r0), d(r1), d(r2) + (G[0] * G[0] + G[1] * G[1] + G[2] * G[2]) / 2.0


@case("C02", [SOLVE], samples=60)
def solutions_satisfy_equation(c):
    """every reported time lies in [0, 1] and solves rho_0 cos(t dw) + rho_1 sin(t dw) + rho_2 = 0, for its own row"""
    two = c.pick("layout", [False, True])
    n, p, g0, at = inputs(c, two)
    snap = c.snapshot(g0)
    r0, r1, r2 = (c.ten("r%d" % i, (3,), near=(-10, 10)) for i in range(3))
    ang = c.real("angle", 0, c.pi, open=True)
    f = c.mod("laue")._find_solutions_to_tangens_half_angle_equation
    grains, planes, times, G = f(g0, r0, r1, r2, ang)
    m = c.shape(times)[0]
    c.same_shape("grains", grains, (m,))
    c.same_shape("planes", planes, (m,))
    c.same_shape("G", G, (m, 3))
    c.unchanged("frame", g0, snap)
    for e in c.each(m, name="e"):
        g, h, t = c.at(grains, e), c.at(planes, e), c.at(times, e)
        c.ensure("grain-index", c.and_(c.le(0, g), c.lt(g, n)))
        c.ensure("plane-index", c.and_(c.le(0, h), c.lt(h, p)))
        c.ensure("time-in-motion", c.and_(c.finite(t), c.le(0, t), c.le(t, 1)))
        a0, a1, a2 = rhos(c, at, r0, r1, r2, g, h)
        x = t * ang
        res = a2 + a0 * c.cos(x) + a1 * c.sin(x)
        c.same("equation", res, 0.0, tol=1e-7, scale=1 + c.abs(a0) + c.abs(a1) + c.abs(a2) if not c.sym else None)
        for q in range(3):
            c.same("G[%d]" % q, c.at(G, e, q), at(g, q, h))


PEAKS = ["polycrystal.Polycrystal._compute_peaks", "motion.RigidBodyMotion.rotate", "motion._RodriguezRotator.__init__",
         "motion._RodriguezRotator.__call__", "laue._get_G"]


@case("C02", PEAKS, concrete=False, budget=30)
def scattering_is_elastic(c):
    """the coefficients handed to the solver are those of the beam and the motion: an event of the solver is a diffraction event,
    |K_out| = |k|, whatever the crystals, the strain, the wave vector, the rotation axis and angle"""
    pc, beam, rbm = sym_scene(c, 1)
    calls = solver_contract(c)
    pk = pc._compute_peaks(beam, rbm)
    c.ensure("one-call", len(calls) == 1)
    k = calls[0]
    for e in c.each(k["m"], name="e"):
        G0 = [c.at(k["G"], e, q) for q in range(3)]
        x = c.at(k["t"], e) * k["ang"]
        rho = [sum(c.at(r, q) * G0[q] for q in range(3)) for r in k["rho"]]
        equation = rho[2] + sum(g * g for g in G0) / 2 + rho[0] * c.cos(x) + rho[1] * c.sin(x)
        kv = [c.at(beam.wave_vector, q) for q in range(3)]
        ko = [c.at(pk, e, 13 + q) for q in range(3)]
        k2 = sum(v * v for v in kv)
        excess = sum(v * v for v in ko) - k2
        c.same("k+R(t)G0 is on the Ewald sphere exactly when the solver's equation holds", excess, 2 * equation)
        # contract of the solver (case solutions_satisfy_equation)
        c.assume(c.eq(equation, 0))
        c.assume(c.eq(excess, 2 * equation))
        c.same("elastic", excess, 0)


@case("C02", ["polycrystal.Polycrystal.diffract", "laue._get_bragg_angle", "laue._get_sin_theta_and_norm_G"] + PEAKS, sym=False, samples=60,
      bounded="random scenes, all four lattice families, 1-4 crystals, 1-3 phases, rotations up to 179 degrees")
def events_are_physical(c):
    """every row of the table: elastic, G is the rotated lattice vector of the strained crystal, Bragg's law, time in [0,1], plane within the cone"""
    np = c.np
    pc, U, eps, pm, phases = polycrystal_of(c, spread=50.0)
    beam = beam_of(c, wavelength=c.rng.choice([0.2, 0.285, 0.4]), direction=(1.0, 0.0, 0.0) if c.rng.random() < 0.5 else unitv(c))
    rbm = motion_of(c, big=c.rng.random() < 0.3)
    lo, hi = (0.0, math.radians(c.rng.uniform(4, 8)))
    d = pc.diffract(beam, rbm, min_bragg_angle=lo, max_bragg_angle=hi, verbose=False)
    pk = np_(d["peaks"])
    c.inputs["n"] = [len(pm), pk.shape[0], float(pk.sum())]
    k = np_(beam.wave_vector)
    ax, ang = np_(rbm.rotation_axis), float(rbm.rotation_angle)
    c.ensure("ran", True)
    c.same("wave number", np.linalg.norm(k), 2 * math.pi / beam.wavelength)
    for r in pk[:200]:
        R = rodrigues(np, ax, ang * r[6])
        g = R @ r[7:10]
        c.ensure("time-in-motion", c.and_(c.le(0, r[6]), c.le(r[6], 1)))
        for q in range(3):
            c.same("G is the rotated G0", r[10 + q], g[q], tol=1e-6)
            c.same("K_out = k + G", r[13 + q], k[q] + r[10 + q], tol=1e-6)
        c.same("elastic", np.linalg.norm(r[13:16]), np.linalg.norm(k), tol=1e-6)
        th2 = math.acos(max(-1, min(1, float(k @ r[13:16]) / float(k @ k))))
        c.same("2theta", r[22], th2, tol=1e-5)
        dsp = 2 * math.pi / np.linalg.norm(r[10:13])
        c.same("bragg law", 2 * dsp * math.sin(th2 / 2), beam.wavelength, tol=1e-5)
        s = float(beam.wavelength) / (2 * dsp)
        c.ensure("no event above 90 degrees", s <= 1 + 1e-9)
        ph = phases[pm[int(r[0])]]
        g = int(r[0])
        g0 = U[g] @ strained_B(np, ph.unit_cell, U[g], eps[g]) @ r[2:5]
        for q in range(3):
            c.same("lattice vector of the strained crystal", r[7 + q], g0[q], tol=1e-6)


@case("C02", [SOLVE, "motion.RigidBodyMotion.rotate", "motion._RodriguezRotator.__init__"], samples=60, sym=False,
      bounded="random inputs; the statement for all inputs is scattering_is_elastic and solutions_satisfy_equation")
def laue_condition(c):
    """|k + R(t) G| = |k| at every reported time, for the coefficients of the incoming wave vector and rotation axis"""
    n, p, g0, at = inputs(c)
    k = c.ten("k", (3,), near=(-10, 10))
    axis = c.unit("axis")
    ang = c.real("angle", 0, c.pi, open=True)
    if n and p and c.rng.random() < 0.4:
        g0 = grazing(c, g0, np_(k), np_(axis), ang)
    m = c.mod("motion").RigidBodyMotion(axis, ang, c.const([0.0, 0.0, 0.0]))
    a = [c.at(axis, q) for q in range(3)]
    kk = [c.at(k, q) for q in range(3)]
    K = [[0.0, -a[2], a[1]], [a[2], 0.0, -a[0]], [-a[1], a[0], 0.0]]
    kK = [sum(kk[i] * K[i][j] for i in range(3)) for j in range(3)]
    kK2 = [sum(kK[i] * K[i][j] for i in range(3)) for j in range(3)]
    r0 = c.fnten(lambda j: pick3(c, j, [-x for x in kK2]), (3,))
    r1 = c.fnten(lambda j: pick3(c, j, kK), (3,))
    r2 = c.fnten(lambda j: pick3(c, j, [kk[q] + kK2[q] for q in range(3)]), (3,))
    f = c.mod("laue")._find_solutions_to_tangens_half_angle_equation
    grains, planes, times, G = f(g0, r0, r1, r2, ang)
    GR = m.rotate(G, times)
    for e in c.each(c.shape(times)[0], name="e"):
        g = [c.at(GR, e, q) for q in range(3)]
        ko = [kk[q] + g[q] for q in range(3)]
        k2 = sum(x * x for x in kk)
        c.same("elastic", sum(x * x for x in ko), k2, tol=1e-7, scale=10 + sum(x * x for x in g) if not c.sym else None)


def grazing(c, g0, k, a, ang):
    """lattice vectors that just touch, just cut or just miss the Ewald sphere during the motion"""
    np, rng = c.np, c.rng
    g = np_(g0).copy()
    kp = k @ a
    e1 = k - kp * a
    ke = np.linalg.norm(e1)
    if ke < 1e-6:
        return g0
    e1 = e1 / ke
    for i in range(g.shape[0]):
        for j in range(g.shape[2]):
            d = rng.choice([0.0, 1, -1]) * 10 ** rng.uniform(-9, -2)
            w = rng.uniform(0.05, 2) * ke
            q = kp * kp - w * w + 2 * w * ke * (1 + d)
            if q < 0:
                continue
            v = -w * e1 + (-kp + rng.choice([-1, 1]) * math.sqrt(q)) * a
            g[i, :, j] = rodrigues(np, a, -ang * rng.random()) @ v
    return c.torch.tensor(g)


def pick3(c, j, xs):
    if not c.sym:
        return xs[j]
    r = xs[2]
    for q in range(2):
        r = c.ite(c.eq(j, q), xs[q], r)
    return r
