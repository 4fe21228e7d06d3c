"""C11  events on the detector: which are kept, their coordinates, frame and intensity factor."""
import math
from engine.api import case, Skip
from contracts._scene import *
from contracts.c10_detector import bare, dot, plane, vec3

P = "detector.Detector.peaks_detector_intersection"
GI, CO = "detector.Detector._get_intersection", "detector.Detector.contains"


def detector(c, all_factors=False):
    """(detector, c0, y, z, n, H, W, used factors)"""
    if c.sym:
        c0 = c.ten("c0", (3,))
        y, z, n = ([c.at(v, q) for q in range(3)] for v in (c.ten("yhat", (3,)), c.ten("zhat", (3,)), c.unit("normal")))
        c.lemma("unit normal", c.eq(c.sqrt(dot(n, n)), 1))
    else:
        c0, y, z, n = plane(c)
    H, W = c.real("H", 0, None, open=True, near=(20, 120)), c.real("W", 0, None, open=True, near=(20, 120))
    d = bare(c, c0, y, z, n, H, W)
    if not c.sym:
        d.zmax, d.ymax = c.torch.tensor(H), c.torch.tensor(W)
    use = [True, True, True] if all_factors else [c.pick(f, [True, False]) for f in ("structure", "polarization", "lorentz")]
    d.structure_factor, d.polarization_factor, d.lorentz_factor = use
    d._verbose = False
    return d, c0, y, z, n, H, W, use


def table(c, a, y, z, n, H, W):
    """an event table with arbitrary rows; the Lorentz factor may be infinite; column 24 numbers the rows"""
    M = c.dim("M", 0, None if c.sym else 12)
    if not c.sym:
        np, rng = c.np, c.rng
        t = np.array([[rng.uniform(-3, 3) for _ in range(25)] for _ in range(M)]).reshape(M, 25)
        for i in range(M):
            p = [rng.uniform(-0.3, 1.3) * H, rng.uniform(-0.3, 1.3) * W]
            if rng.random() < 0.7:
                p = [rng.uniform(0.01, 0.99) * H, rng.uniform(0.01, 0.99) * W]
            hit = np.array(a) + p[0] * np.array(z) + p[1] * np.array(y)
            s = rng.choice([1.0, 1.0, 1.0, -1.0]) * rng.uniform(0.5, 30)
            kk = unitv(c) * rng.uniform(0.5, 30)
            while abs(kk @ np.array(n)) < 0.05:
                kk = unitv(c)
            t[i, 13:16] = kk
            t[i, 16:19] = hit - s * kk
            t[i, 5] = rng.choice([rng.uniform(0, 9), rng.uniform(0, 9), 0.0])
            t[i, 6] = rng.choice([rng.uniform(0, 1), rng.uniform(0, 1), 0.0, 1.0, 0.5, 0.25])
            t[i, 19] = rng.choice([rng.uniform(0, 9), rng.uniform(0, 9), float("inf")])
            t[i, 20] = rng.choice([rng.uniform(0, 1), rng.uniform(0, 1), 0.0])
            t[i, 24] = i
        return M, c.torch.tensor(t), (lambda i, j: t[i, j])
    base = c.ten("tab", (M, 25), where=lambda x, i, _j: c.and_(
        c.le(0, x(i, 6)), c.le(x(i, 6), 1), c.lt(0, dot([x(i, 13 + q) for q in range(3)], [x(i, 13 + q) for q in range(3)])),
        c.not_(c.eq(dot([x(i, 13 + q) for q in range(3)], n), 0))))
    inf = c.ten("infinite", (M,), 0, 1, dtype="int")
    return M, c.fnten(lambda i, j: c.ite(c.and_(c.eq(j, 19), c.eq(c.at(inf, i), 1)), float("inf"), c.ite(c.eq(j, 24), i, c.at(base, i, j))), (M, 25)), \
        (lambda i, j: float("inf") if False else c.ite(c.and_(c.eq(j, 19), c.eq(c.at(inf, i), 1)), float("inf"), c.ite(c.eq(j, 24), i, c.at(base, i, j))))


@case("C11", [P, GI, CO], samples=120, budget=40)
def kept_events(c):
    """exactly the events in front of and on the detector with a positive finite factor are kept, in order and unaltered"""
    d, c0, y, z, n, H, W, use = detector(c, all_factors=c.sym)
    a = [c.at(c0, q) for q in range(3)]
    M, tab, T = table(c, a, y, z, n, H, W)
    F = c.pick("frames", [1, 3] if c.sym else [1, 0, 3])
    snap = c.snapshot(tab)
    cols = ["c%d" % i for i in range(25)]
    beam = object()
    given = {"peaks": tab, "columns": list(cols), "beam": beam}
    out = d.peaks_detector_intersection(given, F, verbose=False)
    c.unchanged("input table", tab, snap)
    c.ensure("input dictionary", given["peaks"] is tab and given["columns"] == cols and set(given) == {"peaks", "columns", "beam"})
    pk = out["peaks"]
    c.ensure("columns", out["columns"] == cols + ["zd", "yd", "incident_angle", "frame", "intensity_factors"])
    c.ensure("context kept", out["beam"] is beam)
    m = c.shape(pk)[0]
    c.same_shape("table", pk, (m, 30))

    def factor(i):
        f = 1.0
        for on, j in zip(use, (5, 20, 19)):
            if on:
                f = f * T(i, j)
        return f

    def hit(i):
        k, s = [T(i, 13 + q) for q in range(3)], [T(i, 16 + q) for q in range(3)]
        x = dot([a[q] - s[q] for q in range(3)], n) / dot(k, n)
        rel = [s[q] + x * k[q] - a[q] for q in range(3)]
        return x, dot(rel, z), dot(rel, y)

    def keep(i):
        x, u, v = hit(i)
        f = factor(i)
        return c.and_(c.le(0, x), c.le(0, u), c.le(u, H), c.le(0, v), c.le(v, W), c.finite(f), c.lt(0, f))
    c.ensure("count", c.eq(m, c.nselected(M, keep)))
    for e in c.each(m, name="e"):
        i = c.floor(c.at(pk, e, 24))
        if not c.sym:
            i = int(i)
        for j in range(25):
            if j != 19:
                c.same("column %d" % j, c.at(pk, e, j), T(i, j), tol=1e-12)
        x, u, v = hit(i)
        c.same("zd", c.at(pk, e, 25), u, tol=1e-6)
        c.same("yd", c.at(pk, e, 26), v, tol=1e-6)
        c.same("factor", c.at(pk, e, 29), factor(i), tol=1e-9)
        if F <= 1:
            c.same("frame", c.at(pk, e, 28), 0)
        c.ensure("positive finite factor", c.and_(c.lt(0, c.at(pk, e, 29)), c.finite(c.at(pk, e, 29))))
        c.ensure("on the detector", c.and_(c.le(0, c.at(pk, e, 25)), c.le(c.at(pk, e, 25), H), c.le(0, c.at(pk, e, 26)), c.le(c.at(pk, e, 26), W)))
    for e in c.each(m - 1 if c.sym else max(m - 1, 0), name="e2"):
        c.ensure("order", c.lt(c.at(pk, e, 24), c.at(pk, e + 1, 24)))


@case("C11", [P], samples=100, budget=40)
def frame_of_the_time(c):
    """frame f of F holds the times in (f/F, (f+1)/F], time zero in the first"""
    d = object.__new__(c.mod("detector").Detector)
    d.structure_factor = d.polarization_factor = d.lorentz_factor = False
    F = c.int("F", 1, None if c.sym else 12)
    M = c.dim("M", 0, None if c.sym else 12)
    if c.sym:
        tab = c.ten("tab", (M, 25), where=lambda x, i, _j: c.and_(c.le(0, x(i, 6)), c.le(x(i, 6), 1)))
    else:
        t = c.np.array([[c.rng.uniform(-3, 3) for _ in range(25)] for _ in range(M)]).reshape(M, 25)
        for i in range(M):
            t[i, 6] = c.rng.choice([c.rng.uniform(0, 1), c.rng.uniform(0, 1), 0.0, 1.0, 0.5, c.rng.randint(0, F) / F])
        tab = c.torch.tensor(t)
    # callees by contract: every ray hits
    d._get_intersection = lambda k, s: c.fnten(lambda i, q: 1.0, (M, 3))
    d.contains = lambda u, v: u == u
    out = d.peaks_detector_intersection({"peaks": tab, "columns": ["c"] * 25}, F, verbose=False)["peaks"]
    m = c.shape(out)[0]
    c.ensure("all kept", c.eq(m, M))
    for e in c.each(m, name="e"):
        f, t = c.at(out, e, 28), c.at(out, e, 6)
        c.ensure("a frame", c.and_(c.le(0, f), c.le(f, F - 1), c.eq(f, c.floor(f))))
        slack = 0 if c.sym else 1e-12
        c.ensure("share of the scan", c.and_(c.or_(c.eq(f, 0), c.lt(f, t * F + slack * F)), c.le(t * F, f + 1 + slack * F)))


@case("C11", [P], samples=60, budget=40)
def enabled_factors(c):
    """the intensity factor is the product of the enabled factors of the row, for every combination"""
    d = object.__new__(c.mod("detector").Detector)
    use = [c.pick(f, [True, False]) for f in ("structure", "polarization", "lorentz")]
    d.structure_factor, d.polarization_factor, d.lorentz_factor = use
    M = c.dim("M", 0)
    base = c.ten("tab", (M, 25), near=(-3, 3))
    inf = c.ten("infinite", (M,), 0, 1, dtype="int")
    T = lambda i, j: c.ite(c.and_(c.eq(j, 19), c.eq(c.at(inf, i), 1)), float("inf"), c.ite(c.eq(j, 24), i, c.at(base, i, j)))
    tab = c.fnten(T, (M, 25))
    d._get_intersection = lambda k, s: c.fnten(lambda i, q: 1.0, (M, 3))
    d.contains = lambda u, v: u == u
    out = d.peaks_detector_intersection({"peaks": tab, "columns": ["c"] * 25}, 1, verbose=False)["peaks"]

    def factor(i):
        f = 1.0
        for on, j in zip(use, (5, 20, 19)):
            if on:
                f = f * T(i, j)
        return f
    m = c.shape(out)[0]
    c.ensure("count", c.eq(m, c.nselected(M, lambda i: c.and_(c.finite(factor(i)), c.lt(0, factor(i), tol=0) if not c.sym else c.lt(0, factor(i))))))
    for e in c.each(m, name="e"):
        i = c.floor(c.at(out, e, 24))
        i = i if c.sym else int(i)
        c.same("factor", c.at(out, e, 29), factor(i), tol=1e-9)
        c.ensure("positive", c.lt(0, c.at(out, e, 29)))


@case("C11", [P, GI, CO, "detector.Detector.__init__", "polycrystal.Polycrystal.diffract"], sym=False, samples=40,
      bounded="random scenes of 1-4 crystals, tilted detectors, 1-7 frames, all factor combinations")
def scene_on_detector(c):
    """events of a diffraction scene on a real detector: kept or dropped, coordinates, frames and factors by an independent evaluation"""
    np, rng = c.np, c.rng
    pc, U, eps, pm, phases = polycrystal_of(c, spread=20.0)
    beam = beam_of(c, pol=unitv(c))
    rbm = motion_of(c)
    use = [rng.random() < 0.6 for _ in range(3)]
    det, c0, y, z, H, W = any_detector(c, use_structure_factor=use[0], use_polarization=use[1], use_lorentz=use[2])
    d = pc.diffract(beam, rbm, max_bragg_angle=math.radians(rng.uniform(4, 10)), verbose=False)
    if len(d["peaks"]) and rng.random() < 0.5:
        d["peaks"][:, 5] = c.torch.tensor([rng.choice([0.0, rng.uniform(0, 50)]) for _ in range(len(d["peaks"]))])
    src = np_(d["peaks"]).copy()
    cols = list(d["columns"])
    F = rng.choice([1, 2, 3, 4, 7, 0])
    out = det.peaks_detector_intersection(d, F, verbose=False)
    pk = np_(out["peaks"])
    c.inputs["rows"] = [len(src), len(pk), F, use]
    c.ensure("input table", bool(np.array_equal(src, np_(d["peaks"]), equal_nan=True)) and list(d["columns"]) == cols)
    c.ensure("columns", list(out["columns"]) == cols + ["zd", "yd", "incident_angle", "frame", "intensity_factors"])
    n = np.cross(z, y)
    want = []
    near = False
    for r in src:
        k, s0 = r[13:16], r[16:19]
        s = float((c0 - s0) @ n) / float(k @ n)
        p = s0 + s * k - c0
        u, v = float(p @ z), float(p @ y)
        f = 1.0
        for on, j in zip(use, (5, 20, 19)):
            f = f * r[j] if on else f
        near |= min(abs(u), abs(u - H), abs(v), abs(v - W)) < 1e-7 or (np.isfinite(f) and 0 < abs(f) < 1e-14)
        if s >= 0 and 0 <= u <= H and 0 <= v <= W and np.isfinite(f) and f > 0:
            fr = 0
            if F > 1:
                fr = min(max(int(math.ceil(r[6] * F - 1e-12)) - 1, 0), F - 1)
            want.append(list(r) + [u, v, math.degrees(math.acos(max(-1, min(1, float(-k @ n) / np.linalg.norm(k))))), fr, f])
    if near:
        raise Skip()
    c.ensure("kept rows", len(want) == len(pk))
    if len(want) == len(pk) and len(pk):
        want = np.array(want)
        binned = np.abs(want[:, 6] * max(F, 1) - np.round(want[:, 6] * max(F, 1))) > 1e-9
        for j in list(range(25)) + [25, 26, 27, 29]:
            c.ensure("column %d" % j, bool(np.all((np.abs(want[:, j] - pk[:, j]) <= 1e-6 * (1 + np.abs(want[:, j]))) | (want[:, j] == pk[:, j]))))
        c.ensure("frames", bool(np.all(want[binned, 28] == pk[binned, 28])))
    c.ensure("ran", True)
