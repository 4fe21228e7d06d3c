"""C19  templates."""
import math
import types
from engine.api import case, Skip
from contracts._scene import *

T = "templates."
KEYS = ["detector_distance", "number_of_detector_pixels_z", "number_of_detector_pixels_y", "detector_center_pixel_z", "detector_center_pixel_y", "pixel_side_length_z", "pixel_side_length_y",
        "wavelength", "beam_side_length_z", "beam_side_length_y", "rotation_step", "rotation_axis"]


def parameters(c):
    ax = c.unit("axis", lib="np")
    nz, ny = c.int("nz", 1, near=(1, 9)), c.int("ny", 1, near=(1, 9))
    p = dict(detector_distance=c.real("distance", 0, None, open=True, near=(10, 1e6)), number_of_detector_pixels_z=nz, number_of_detector_pixels_y=ny,
             detector_center_pixel_z=c.real("cz", near=(-20, 20)), detector_center_pixel_y=c.real("cy", near=(-20, 20)),
             pixel_side_length_z=c.real("pz", 0, None, open=True, near=(0.1, 500)), pixel_side_length_y=c.real("py", 0, None, open=True, near=(0.1, 500)), wavelength=c.real("wavelength", 0, None, open=True, near=(0.01, 10)),
             beam_side_length_z=c.real("bz", 0, None, open=True, near=(0.01, 1e4)), beam_side_length_y=c.real("by", 0, None, open=True, near=(0.01, 1e4)), rotation_step=c.real("step", 0, c.pi, open=True, near=(0.001, 3.1)), rotation_axis=ax)
    return p


@case("C19", [T + "s3dxrd", T + "_get_detector_from_params", T + "_get_beam_from_params", T + "_get_motion_from_params", "beam.Beam.__init__", "detector.Detector.__init__"], samples=40, budget=40)
def scanning(c):
    """detector, beam and motion say what the dictionary says, for any parameters; nothing of the dictionary is changed"""
    if c.sym:
        def planes(self, v):
            self.vertices = v.clone()
            self.centroid = c.torch.mean(self.vertices, axis=0)
            self.halfspaces = c.ten("planes", (c.dim("P", 4), 4))
        c.mod("beam").Beam.set_beam_vertices = planes
    p = parameters(c)
    old = dict(p)
    ax = c.snapshot(p["rotation_axis"])
    beam, det, rbm = c.mod("templates").s3dxrd(p)
    c.ensure("dictionary kept", set(p) == set(old) and all(p[k] is old[k] for k in p))
    c.unchanged("axis", p["rotation_axis"], ax)
    L, pz, py, nz, ny = [p[k] for k in ("detector_distance", "pixel_side_length_z", "pixel_side_length_y", "number_of_detector_pixels_z", "number_of_detector_pixels_y")]
    cz, cy = p["detector_center_pixel_z"], p["detector_center_pixel_y"]
    corner = [[L, -cy * py, -cz * pz], [L, (ny - cy) * py, -cz * pz], [L, -cy * py, (nz - cz) * pz]]
    for k, v in enumerate((det.det_corner_0, det.det_corner_1, det.det_corner_2)):
        c.same_shape("corner", v, (3,))
        for q in range(3):
            c.same("corner %d" % k, c.at(v, q), corner[k][q], tol=1e-9, scale=None if c.sym else 1 + 20 * (pz + py))
    c.same("pixel size z", c.at(det.pixel_size_z), pz)
    c.same("pixel size y", c.at(det.pixel_size_y), py)
    c.same("height", c.at(det.zmax), nz * pz)
    c.same("width", c.at(det.ymax), ny * py)
    if c.sym:
        s = c.shape(det.pixel_coordinates)
        # up to one part in 10^9 of a pixel the edges are whole numbers of pixels
        for m, n in ((s[0], nz), (s[1], ny)):
            c.ensure("pixel numbers", c.and_(c.le(n - 1e-9, m), c.lt(m, n + 1)))
    else:
        c.same_shape("pixel numbers", det.pixel_coordinates, (nz, ny, 3))
        # the straight beam hits the beam centre
        t = np_(det._get_intersection(c.torch.tensor([[1.0, 0.0, 0.0]]), c.torch.tensor([[0.0, 0.0, 0.0]]))).reshape(-1)
        c.same("beam centre z", t[0] / pz, cz, tol=1e-6)
        c.same("beam centre y", t[1] / py, cy, tol=1e-6)
    wl = p["wavelength"]
    c.same("wavelength", beam.wavelength, wl)
    for q in range(3):
        c.same("wave vector", c.at(beam.wave_vector, q) * wl, 2 * c.pi if q == 0 else 0.0)
        c.same("polarisation", c.at(beam.polarization_vector, q), 1.0 if q == 1 else 0.0)
    c.same_shape("beam vertices", beam.vertices, (8, 3))
    bz, by = p["beam_side_length_z"], p["beam_side_length_y"]
    want = [[x * L, y * by / 2, z * bz / 2] for x in (-1, 1) for z in (-1, 1) for y in (-1, 1)]
    hit = lambda k, w: c.and_(*[c.eq(c.at(beam.vertices, k, q), w[q]) if c.sym else abs(c.at(beam.vertices, k, q) - w[q]) < 1e-9 * (1 + abs(w[q])) for q in range(3)])
    for w in want:
        c.ensure("cross section", c.or_(*[hit(k, w) for k in range(8)]))
    c.same("step", c.at(rbm.rotation_angle), p["rotation_step"])
    for q in range(3):
        c.same("axis", c.at(rbm.rotation_axis, q), c.at(ax, q))
        c.same("translation", c.at(rbm.translation, q), 0.0)
        c.same("origin", c.at(rbm.origin, q), 0.0)


@case("C19", [T + "s3dxrd"], samples=24)
def missing_key(c):
    """a dictionary without one of the keys is refused; further keys do no harm"""
    if c.sym:
        c.mod("beam").Beam.set_beam_vertices = lambda self, v: None
    p = parameters(c)
    k = c.pick("missing", KEYS)
    del p[k]
    p["something else"] = 1
    c.ensure("refused", c.attempt(lambda: c.mod("templates").s3dxrd(p), ValueError)[0])


@case("C19", [T + "get_uniform_powder_sample"], samples=12, budget=20)
def powder(c):
    """every crystal of the powder is the tetrahedron inscribed in the bounding sphere; proper random rotations; the given strain and phase"""
    n = c.pick("grains", [1, 2, 5])
    r = c.real("r", 0, None, open=True, near=(0.01, 1e3))
    cell, sg = CELLS[c.pick("phase", [0, 1])]
    strain = c.ten("strain", (3, 3), None if c.sym else -1e-3, None if c.sym else 1e-3, lib="np")
    made = []
    tm = c.mod("templates")
    if c.sym:
        # the constructor of the sample is checked against its own contracts (C06 - C09)
        def sample(mesh, orientation, strain, phases, element_phase_map=None):
            made.append((mesh, orientation, strain, phases, element_phase_map))
            return "sample"
        tm.Polycrystal = sample

        def gen(cls, coord, enod):
            m = mesh_of(coord, enod)
            return m

        def mesh_of(coord, enod):
            m = object.__new__(c.mod("mesh").TetraMesh)
            m.coord, m.enod, m.number_of_elements = coord, enod, c.shape(enod)[0]
            return m
        c.mod("mesh").TetraMesh.generate_mesh_from_vertices = classmethod(gen)
    pc = tm.get_uniform_powder_sample(r, n, cell, sg, strain_tensor=strain, path_to_cif_file=None)
    if c.sym:
        c.ensure("one sample", len(made) == 1 and pc == "sample")
        mesh, U, eps, phases, pm = made[0]
        coord, enod = mesh.coord, mesh.enod
        phases = phases if isinstance(phases, list) else [phases]
    else:
        mesh, U, eps, phases, pm = pc.mesh_lab, pc.orientation_lab, pc.strain_lab, pc.phases, pc.element_phase_map
        coord, enod = mesh.coord, mesh.enod
    c.same_shape("crystals", enod, (n, 4))
    c.ensure("one phase", len(phases) == 1 and list(phases[0].unit_cell) == list(cell) and phases[0].sgname == sg and phases[0].path_to_cif_file is None)
    c.same_shape("orientations", U, (n, 3, 3))
    h, g = 1 / c.sqrt(3.0), 1 / c.sqrt(2.0)
    corners = [[h * r, h * r, -h * r], [h * r, -h * r, -h * r], [-g * r, 0, -g * r], [0, 0, r]]
    for e in range(n):
        v = [[c.at(coord, c.at(enod, e, a), q) for q in range(3)] for a in range(4)]
        for a in range(4):
            c.same("inside the bounding sphere, touching it", sum(x * x for x in v[a]), r * r, tol=1e-9, scale=None if c.sym else r * r)
        for w in corners:
            same = lambda x: c.and_(*[c.eq(x[q], w[q]) if c.sym else abs(x[q] - w[q]) < 1e-9 * r for q in range(3)])
            c.ensure("full size crystal", c.or_(*[same(v[a]) for a in range(4)]))
        if pm is not None:
            c.ensure("phase", c.eq(c.at(pm, e), 0))
        u = [[c.at(U, e, i, j) for j in range(3)] for i in range(3)]
        for i in range(3):
            for j in range(3):
                c.same("rotation", sum(u[i][k] * u[j][k] for k in range(3)), 1.0 if i == j else 0.0, tol=1e-9)
                c.same("strain", c.at(eps, *((i, j) if len(c.shape(eps)) == 2 else (e, i, j))), c.at(strain, i, j))
        d = sum(u[0][i] * (u[1][(i + 1) % 3] * u[2][(i + 2) % 3] - u[1][(i + 2) % 3] * u[2][(i + 1) % 3]) for i in range(3))
        c.same("proper rotation", d, 1.0, tol=1e-9)
    if not c.sym and n > 1:
        np = c.np
        c.ensure("independent orientations", not np.allclose(np_(U)[0], np_(U)[1], atol=1e-6))


def cap(np, q0, rho):
    """uniform density on the rotations within 2 rho of q0 (half of the unit 3-sphere is sampled)"""
    vol = 2 * math.pi * (rho - math.sin(rho) * math.cos(rho))

    def f(q):
        return (np.abs(q @ q0) > math.cos(rho)).astype(float) / vol
    return f


@case("C19", [T + "polycrystal_from_odf", T + "_sample_ODF", "utils._alpha_to_quarternion"], sym=False, samples=8, budget=60,
      bounded="random cylinders of 8 to 60 crystals, densities concentrated at a rotation that changes along the sample")
def from_odf(c):
    """crystals fill the cylinder; each orientation lies in the support of the density at the crystal's own place; strain is evaluated there"""
    np, rng = c.np, c.rng
    np.random.seed(rng.randrange(99999))
    R, h = rng.uniform(5, 50), rng.uniform(5, 80)
    rho, bin_ = math.radians(28), math.radians(10)
    a, b = unitv(c), rng.uniform(0.5, 2.5)
    base = np.array([rng.gauss(0, 1) for _ in range(4)])
    base = base / np.linalg.norm(base)

    def mul(p, q):
        x1, y1, z1, w1 = p
        x2, y2, z2, w2 = q
        return np.array([w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2, w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2, w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2])

    def centre(x):
        t = b * (x[2] / h + 0.3 * x[0] / R)
        return mul(np.array([math.sin(t) * a[0], math.sin(t) * a[1], math.sin(t) * a[2], math.cos(t)]), base)
    asked = []

    def odf(x, q):
        asked.append(np.array(x, float))
        d = np.abs(q @ centre(x)) > math.cos(rho)
        return d / max(1e-12, WEIGHT(q)[d].sum())      # normalised on the grid it is given

    def WEIGHT(q):
        """the grid's own cell volumes: sin(alpha_1)^2 sin(alpha_2), up to the common factor that the normalisation of a uniform density fixes"""
        s1 = np.sqrt(np.maximum(0, 1 - q[:, 0] ** 2))
        w = s1 * np.sqrt(np.maximum(0, q[:, 1] ** 2 + q[:, 2] ** 2))
        return w * (math.pi ** 2 / w.sum())
    eps = lambda x: np.array([[1e-5 * x[0], 0.0, 2e-5 * x[2]], [0.0, 1e-5 * x[1], 0.0], [2e-5 * x[2], 0.0, 1e-5 * x[2]]])
    cell, sg = CELLS[rng.randrange(4)]
    n = rng.choice([8, 20, 60])
    c.inputs.update(R=R, h=h, n=n)
    pc = c.mod("templates").polycrystal_from_odf(odf, n, h, R, cell, sg, None, bin_, eps)
    m = pc.mesh_lab
    x, vol, U, e = np_(m.coord), np_(m.evolumes), np_(pc.orientation_lab), np_(pc.strain_lab)
    cen = x[np_(m.enod).astype(int)].mean(axis=1)
    E = len(cen)
    c.ensure("inside the cylinder", bool(np.all(np.hypot(x[:, 0], x[:, 1]) < R * (1 + 1e-9)) and np.all(np.abs(x[:, 2]) < h / 2 * (1 + 1e-9))))
    c.ensure("reaches the ends", abs(x[:, 2].min() + h / 2) < 1e-9 * h and abs(x[:, 2].max() - h / 2) < 1e-9 * h)
    c.ensure("fills the cylinder", 0.89 * math.pi * R * R * h < vol.sum() < math.pi * R * R * h * (1 + 1e-9))
    c.ensure("one density per crystal at its own place", len(asked) >= E and all(any(np.allclose(p, q, atol=1e-6 * R) for p in asked) for q in cen))
    c.same_shape("orientations", U, (E, 3, 3))
    from scipy.spatial.transform import Rotation
    for k in range(E):
        c.ensure("proper rotation", np.allclose(U[k] @ U[k].T, np.eye(3), atol=1e-9) and np.linalg.det(U[k]) > 0)
        q = Rotation.from_matrix(U[k]).as_quat()
        d = math.acos(min(1.0, abs(q @ centre(cen[k]))))
        # the density is taken as constant over a bin of half the separation per angle
        c.ensure("orientation where the density at the crystal's place is not zero", d <= rho + bin_ / 2 * math.sqrt(3) / 2 + 1e-3)
        c.ensure("strain at the crystal's place", np.allclose(e[k], eps(cen[k]), atol=1e-12 + 1e-9 * R))
    c.ensure("one phase", len(pc.phases) == 1 and list(pc.phases[0].unit_cell) == list(cell) and pc.phases[0].sgname == sg and not np_(pc.element_phase_map).any())
    bad, _ = c.attempt(lambda: c.mod("templates")._sample_ODF(lambda x, q: 0.8 / math.pi ** 2, bin_, cen[:1]), AssertionError, ValueError)
    c.ensure("a density that is not normalised is refused", bad)


@case("C19", [T + "_sample_ODF", "utils._alpha_to_quarternion"], sym=False, samples=3, budget=60, bounded="3000 draws per density, deviations of more than six standard deviations are reported")
def odf_frequencies(c):
    """how often an orientation is drawn follows the density: uniform densities, and two regions of different weight"""
    np, rng = c.np, c.rng
    np.random.seed(rng.randrange(99999))
    from scipy.spatial.transform import Rotation
    bin_, N = math.radians(20), 3000
    f = c.mod("templates")._sample_ODF
    x = np.zeros((N, 3))
    q = Rotation.from_matrix(f(lambda x, q: np.full(len(q), 1 / math.pi ** 2), bin_, x)).as_quat()
    # uniform on the unit 3-sphere: each squared component has mean 1/4, variance 1/16
    for k in range(4):
        c.ensure("uniform", abs((q[:, k] ** 2).mean() - 0.25) < 6 * 0.25 / math.sqrt(N))
        for l in range(k):
            c.ensure("no preferred direction", abs((q[:, k] * q[:, l]).mean()) < 6 * math.sqrt(1 / 24.0 / N))
    # fourth order: tells a uniform density from one that is uniform in the angles or fixed at the middle of a bin
    c.ensure("uniform angle", abs((q ** 4).mean() - 0.125) < 6 * 0.12 / math.sqrt(4 * N) + 0.002)
    axis, w = np.array(unitv(c)), rng.uniform(0.6, 0.9)

    def two(x, q):
        side = (q[:, :3] @ axis) * q[:, 3] > 0
        return np.where(side, w, 1 - w) * 2 / math.pi ** 2
    U = f(two, bin_, x)
    q = Rotation.from_matrix(U).as_quat()
    part = ((q[:, :3] @ axis) * q[:, 3] > 0).mean()
    c.ensure("frequencies follow the density", abs(part - w) < 6 * math.sqrt(w * (1 - w) / N) + 0.02)
    # draws are spread within a bin, not fixed at its middle
    c.ensure("spread within a bin", len(np.unique(np.round(q, 7), axis=0)) > 0.999 * N)


@case("C19", [T + "_sample_ODF", "utils._alpha_to_quarternion"], sym=False, samples=8, budget=60,
      bounded="grids of 20 to 60 degrees, all of the density in a single cell that depends on the place, 240 draws each")
def odf_cells(c):
    """where all of the density is in one cell of the orientation grid, the orientation is drawn from that cell, all over it, whichever cell it is"""
    np, rng = c.np, c.rng
    np.random.seed(rng.randrange(99999))
    from scipy.spatial.transform import Rotation
    bin_, N = math.radians(rng.uniform(20, 60)), 240
    places = np.array([[rng.uniform(-9, 9) for _ in range(3)] for _ in range(3)])
    which = [rng.randrange(3) for _ in range(N)]
    frac = [[rng.choice([0.0, 1.0, rng.random()]) for _ in range(3)] for _ in range(3)]
    G = {}

    def angles(q):
        a1 = np.arccos(np.clip(q[:, 0], -1, 1))
        a2 = np.arccos(np.clip(q[:, 3] / np.maximum(np.sin(a1), 1e-15), -1, 1))
        a3 = np.arctan2(q[:, 2], q[:, 1]) % (2 * math.pi)
        return np.array([a1, a2, a3])

    def grid(q):
        if G.get("n") != len(q):
            A = angles(q)
            G["n"], G["A"] = len(q), A
            G["u"] = [np.unique(np.round(x, 5)) for x in A]
            G["d"] = [float(np.diff(u).min()) for u in G["u"]]
            G["cell"] = []
            for k in range(3):
                want = [u[int(round(f * (len(u) - 1)))] for u, f in zip(G["u"], frac[k])]
                G["cell"].append(int(np.argmin(sum(np.abs(A[j] - want[j]) for j in range(3)))))
        return G

    def odf(x, q):
        g = grid(q)
        k = int(np.argmin(np.abs(places - np.asarray(x, float).reshape(3)).sum(axis=1)))
        i = g["cell"][k]
        a, h = g["A"][:, i], [d / 2 for d in g["d"]]
        F = lambda t: (t - math.sin(t) * math.cos(t)) / 2
        vol = (F(a[0] + h[0]) - F(a[0] - h[0])) * (math.cos(a[1] - h[1]) - math.cos(a[1] + h[1])) * 2 * h[2]
        out = np.zeros(len(q))
        out[i] = 1 / vol
        return out
    U = c.mod("templates")._sample_ODF(odf, bin_, places[which])
    c.same_shape("orientations", U, (N, 3, 3))
    q = Rotation.from_matrix(np.asarray(U)).as_quat()
    c.inputs.update(bin=bin_, frac=frac)
    c.ensure("grid not wider than asked", max(G["d"]) <= bin_ * (1 + 1e-6))
    for k in range(3):
        sel = [j for j in range(N) if which[j] == k]
        centre = G["A"][:, G["cell"][k]]
        off = []
        for j in sel:
            # q and -q are the same rotation
            best = None
            for s in (1, -1):
                t = angles(s * q[j:j + 1])[:, 0] - centre
                t[2] = (t[2] + math.pi) % (2 * math.pi) - math.pi
                w = max(abs(t[m]) / G["d"][m] for m in range(3))
                if best is None or w < best[0]:
                    best = (w, t)
            c.ensure("within the cell", best[0] <= 0.5 + 1e-4)
            off.append(best[1] / np.array(G["d"]))
        off = np.array(off)
        if len(sel) > 40:
            c.ensure("all over the cell", bool(np.all(off.max(axis=0) > 0.2) and np.all(off.min(axis=0) < -0.2)))
