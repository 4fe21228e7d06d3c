"""C05  Lorentz, polarisation and Scherrer factors of an event."""
import math
from engine.api import case
from contracts._scene import *

FL, FP, FS = "scattering_factors._lorentz", "scattering_factors._polarization", "scattering_factors._scherrer"


def dot(c, a, b):
    return sum(a[q] * b[q] for q in range(3))


def one_or_batch(c, name, lo, hi, pre):
    """(3,) vector or (N,3) batch -> (tensor, accessor, N or None)"""
    if c.pick("layout", ["batch", "single"]) == "single":
        t = c.ten(name, (3,), near=(lo, hi), where=lambda x, _q: pre([x(q) for q in range(3)]))
        return t, lambda i, q: c.at(t, q), None
    n = c.dim("n", 0)
    t = c.ten(name, (n, 3), near=(lo, hi), where=lambda x, i, _q: pre([x(i, q) for q in range(3)]))
    return t, lambda i, q: c.at(t, i, q), n


@case("C05", [FP], samples=40)
def polarization(c):
    """1 - cos^2 of the angle between the scattered ray and the polarisation, per event, whatever the number of events"""
    t, at, n = one_or_batch(c, "k_out", -10, 10, lambda k: c.lt(1e-6, dot(c, k, k)))
    pol = c.unit("pol")
    snap = c.snapshot(t)
    p = c.mod("scattering_factors")._polarization(t, pol)
    if n is not None:
        c.same_shape("shape", p, (n,))
    for i in (c.each(n, name="i") if n is not None else [0]):
        k = [at(i, q) for q in range(3)]
        pv = [c.at(pol, q) for q in range(3)]
        v = c.at(p, i) if n is not None and len(c.shape(p)) else (c.at(p) if len(c.shape(p)) == 0 else c.at(p, 0))
        kk, kp = dot(c, k, k), dot(c, k, pv)
        c.same("1-cos^2", v * kk, kk - kp * kp, tol=1e-7)
        c.ensure("at-most-one", c.le(v, 1))
        # |k x p|^2 = |k|^2 |p|^2 - (k.p)^2
        cr = [k[1] * pv[2] - k[2] * pv[1], k[2] * pv[0] - k[0] * pv[2], k[0] * pv[1] - k[1] * pv[0]]
        c.same("sin^2", v * kk, sum(x * x for x in cr), tol=1e-7)
        c.cut("not-negative", [v, kk] + cr, [lambda V, K, a, b, d: c.eq(V * K, a * a + b * b + d * d), lambda V, K, a, b, d: c.lt(0, K)],
              lambda V, K, a, b, d: c.le(0, V))
    c.unchanged("frame", t, snap)


@case("C05", [FL], samples=60, budget=30)
def lorentz(c):
    """1/(sin 2theta |sin eta|), infinite exactly within half a degree of the rotation axis / of the beam; per event"""
    k_in = c.ten("k_in", (3,), near=(-10, 10))
    axis = c.unit("axis")
    kv = [c.at(k_in, q) for q in range(3)]
    av = [c.at(axis, q) for q in range(3)]
    k2 = dot(c, kv, kv)
    c.assume(c.lt(1e-3, k2))

    def orth(k):
        x = dot(c, kv, k) / k2
        return [k[q] - kv[q] * x for q in range(3)]

    def pre(k):
        # not along the beam
        x, o = dot(c, kv, k) / k2, orth(k)
        far = c.and_(c.lt(-1, x), c.lt(x, 1), c.lt(1e-6, dot(c, o, o)))
        if not c.sym:
            return far
        # exactly at the pole: in the case `poles`
        y = dot(c, av, o) / c.sqrt(dot(c, o, o))
        return c.and_(far, c.lt(-1, y), c.lt(y, 1))
    t, at, n = one_or_batch(c, "k_out", -10, 10, pre)
    L = c.mod("scattering_factors")._lorentz(k_in, t, axis)
    if n is not None:
        c.same_shape("shape", L, (n,))
    else:
        c.ensure("scalar", len(c.shape(L)) == 0)
    for i in (c.each(n, name="i") if n is not None else [0]):
        k = [at(i, q) for q in range(3)]
        x = dot(c, kv, k) / k2
        o = [k[q] - kv[q] * x for q in range(3)]
        o2 = dot(c, o, o)
        y = dot(c, av, o) / c.sqrt(o2)
        if not c.sym:
            y = min(1.0, max(-1.0, y))
        th2, eta = c.acos(x), c.acos(y)
        half = c.pi / 360
        v = c.at(L, i) if n is not None else c.at(L)
        diverges = c.or_(c.lt(eta, half), c.lt(c.pi - half, eta), c.lt(th2, 2 * half))
        c.ensure("diverges within half a degree", c.implies(diverges, c.not_(c.finite(v))))
        regular = c.and_(c.lt(half, eta), c.lt(eta, c.pi - half), c.lt(2 * half, th2))
        c.ensure("finite elsewhere", c.implies(regular, c.finite(v)))
        if c.sym:
            c.ensure("value", c.implies(regular, c.eq(v * c.sin(th2) * c.sin(eta), 1)))
        elif c.finite(v):
            c.same("value", v * math.sin(th2) * math.sin(eta), 1.0, tol=1e-6)
            c.ensure("positive", v > 0)


@case("C05", [FL], sym=False, samples=60, bounded="random beams, axes and scattering angles; events exactly at the pole and along the beam, where roundoff decides")
def poles(c):
    """infinite, never undefined, at the rotation axis and along the beam"""
    np, rng = c.np, c.rng
    u, w = unitv(c), unitv(c)
    a = np.cross(u, w)
    a = a / np.linalg.norm(a)
    k = u * 10 ** rng.uniform(-1, 2)
    t = rng.uniform(0.05, 3.0)
    out = [math.cos(t) * k + s * math.sin(t) * np.linalg.norm(k) * a for s in (1, -1)] + [k]
    lor = c.mod("scattering_factors")._lorentz
    T = c.torch.tensor
    many = lor(T(k), T(np.array(out)), T(a))
    for v in [float(x) for x in many] + [float(lor(T(k), T(o), T(a))) for o in out]:
        c.ensure("diverges", v == math.inf)


@case("C05", [FS], samples=40)
def scherrer(c):
    """K lambda / (size cos theta), size the diameter (angstrom) of the sphere with the crystal's volume"""
    n = c.dim("n", 0)
    vol = c.ten("vol", (n,), 0, None, open=True, near=(0.001, 1000))
    th2 = c.ten("th2", (n,), near=(0.0, 3.0), where=lambda x, i: c.and_(c.le(0, x(i)), c.lt(x(i), c.pi)))
    wl = c.real("wl", 0, None, open=True, near=(0.01, 5))
    b = c.mod("scattering_factors")._scherrer(vol, th2, wl)
    c.same_shape("shape", b, (n,))
    for i in c.each(n, name="i"):
        v, t2 = c.at(vol, i), c.at(th2, i)
        w = c.at(b, i)
        if c.sym:
            size3 = 6 * v / c.pi          # diameter^3
            s = 1e4 * w * c.cos(t2 / 2) / (0.9 * wl)      # = 1/diameter (micron)
            c.lemma("cos", c.lt(0, c.cos(t2 / 2)))
            c.ensure("value", c.eq(s * s * s * size3, 1))
        else:
            size = 2 * (3 * v / (4 * math.pi)) ** (1 / 3.) * 1e4
            c.same("value", w, 0.9 * wl / (size * math.cos(t2 / 2)), tol=1e-9)
        c.ensure("positive", c.lt(0, w))
    k = c.mod("scattering_factors")._scherrer(vol, th2, wl, 0.5)
    for i in c.each(n, name="i"):
        c.same("shape constant", c.at(k, i) * 0.9, c.at(b, i) * 0.5)


@case("C05", ["polycrystal.Polycrystal._compute_peaks", FL, FP, FS], sym=False, samples=30,
      bounded="random scenes; the factor columns are compared to formulas written from the geometry of the row itself")
def factors_of_the_table(c):
    """the factor columns of the event table belong to the event of their own row"""
    np = c.np
    pc, U, eps, pm, phases = polycrystal_of(c, spread=50.0)
    beam = beam_of(c, direction=(1.0, 0.0, 0.0) if c.rng.random() < 0.5 else unitv(c))
    rbm = motion_of(c)
    pk = np_(pc.diffract(beam, rbm, max_bragg_angle=math.radians(6), verbose=False)["peaks"])
    c.inputs["rows"] = [pk.shape[0], float(pk.sum()) if pk.size else 0]
    c.ensure("ran", True)
    k, ax, pol, wl = np_(beam.wave_vector), np_(rbm.rotation_axis), np_(beam.polarization_vector), float(beam.wavelength)
    coord, enod = np_(pc.mesh_lab.coord), np_(pc.mesh_lab.enod)
    for r in pk[:150]:
        ko = r[13:16]
        cos2 = float(k @ ko) / (np.linalg.norm(k) * np.linalg.norm(ko))
        th2 = math.acos(max(-1.0, min(1.0, cos2)))
        c.same("polarization", r[20], 1 - float(ko @ pol) ** 2 / float(ko @ ko), tol=1e-6)
        o = ko - k * float(k @ ko) / float(k @ k)
        eta = math.acos(max(-1, min(1, float(ax @ o) / np.linalg.norm(o))))
        tol = math.radians(0.5)
        if eta < tol - 1e-5 or eta > math.pi - tol + 1e-5 or th2 / 2 < tol - 1e-5:
            c.ensure("lorentz diverges", not math.isfinite(r[19]))
        elif tol + 1e-5 < eta < math.pi - tol - 1e-5 and th2 / 2 > tol + 1e-5:
            c.same("lorentz", r[19], 1 / (math.sin(th2) * math.sin(eta)), tol=1e-5)
        v = coord[enod[int(r[0])]]
        vol = abs(np.dot(np.cross(v[1] - v[0], v[2] - v[0]), v[3] - v[0])) / 6
        c.same("volume", r[21], vol, tol=1e-7)
        size = 2 * (3 * vol / (4 * math.pi)) ** (1 / 3.) * 1e4
        c.same("scherrer", r[23], 0.9 * wl / (size * math.cos(th2 / 2)), tol=1e-6, scale=0)
