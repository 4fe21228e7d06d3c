"""Shared scene builders: a concrete random diffraction experiment on the real package, and a symbolic one."""
import math

AL = [4.0495, 4.0495, 4.0495, 90.0, 90.0, 90.0]
QZ = [4.926, 4.926, 5.4189, 90.0, 90.0, 120.0]
CELLS = [(AL, "Fm-3m"), (QZ, "P3221"), ([3.0, 4.1, 5.3, 90.0, 90.0, 90.0], "P222"), ([5.1, 5.2, 5.3, 85.0, 99.0, 94.0], "P1")]


def euler_rot(np, rng):
    """random rotation matrix from a unit quaternion"""
    q = np.array([rng.gauss(0, 1) for _ in range(4)])
    w, x, y, z = q / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def rodrigues(np, axis, ang):
    k = np.asarray(axis, float)
    k = k / np.linalg.norm(k)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(ang) * K + (1 - math.cos(ang)) * (K @ K)


def tetra_mesh(c, n, spread=10.0, size=4.0, base=None):
    """n tetrahedra, well shaped, random"""
    np, rng = c.np, c.rng
    coord, enod = [], []
    for e in range(n):
        while True:
            v = np.array([[rng.uniform(-size, size) for _ in range(3)] for _ in range(4)])
            vol = abs(np.dot(np.cross(v[1] - v[0], v[2] - v[0]), v[3] - v[0])) / 6
            if vol > 0.05 * size ** 3:
                break
        v = v + np.array([rng.uniform(-spread, spread) for _ in range(3)])
        enod.append([4 * e, 4 * e + 1, 4 * e + 2, 4 * e + 3])
        coord.extend(v.tolist())
    return c.mod("mesh").TetraMesh.generate_mesh_from_vertices(np.array(coord), np.array(enod))


def np_(x):
    return x.detach().numpy() if hasattr(x, "detach") else x


def unitv(c):
    v = c.np.array([c.rng.gauss(0, 1) for _ in range(3)])
    return v / c.np.linalg.norm(v)


def lattice_B(np, cell):
    """reciprocal basis of a unit cell with the 2 pi factor: a* along x, b* in the xy plane (upper triangular)"""
    a, b, cc = [float(x) for x in cell[:3]]
    al, be, ga = [math.radians(float(x)) for x in cell[3:]]
    A = np.array([[a, b * math.cos(ga), cc * math.cos(be)],
                  [0, b * math.sin(ga), cc * (math.cos(al) - math.cos(be) * math.cos(ga)) / math.sin(ga)],
                  [0, 0, 0]])
    A[2, 2] = math.sqrt(cc * cc - A[0, 2] ** 2 - A[1, 2] ** 2)
    rec = 2 * math.pi * np.linalg.inv(A).T          # columns: a*, b*, c*
    G = rec.T @ rec
    return np.linalg.cholesky(G).T


def strained_B(np, cell, U, eps):
    """reciprocal basis of the cell deformed by the Green strain eps (lab frame); crystal orientation U"""
    C = 2 * (U.T @ eps @ U) + np.eye(3)
    F = np.linalg.cholesky(C).T
    return np.linalg.inv(F) @ lattice_B(np, cell)


def box(np, xs, w):
    a, b = xs
    if np.isscalar(w):
        w = (-w, w, -w, w)
    return np.array([[x, y, z] for x in (a, b) for y in (w[0], w[1]) for z in (w[2], w[3])], float)


def beam_of(c, width=500.0, wavelength=0.285227, direction=(1.0, 0.0, 0.0), pol=(0.0, 1.0, 0.0), x=(-500.0, 500.0)):
    np = c.np
    d = np.asarray(direction, float)
    p = np.asarray(pol, float)
    if abs(p @ d) > 1e-12:
        p = np.cross(d, p if np.linalg.norm(np.cross(d, p)) > 0.2 else np.array([0.3, -0.5, 0.8]))
        p = p / np.linalg.norm(p)
    return c.mod("beam").Beam(box(np, x, width), d, wavelength, p)


def detector_of(c, distance=1000.0, size=600.0, pixel=10.0, kernel=None):
    np = c.np
    s = size / 2.0
    kw = {} if kernel is None else {"gaussian_sigma": kernel}
    return c.mod("detector").Detector(np.array([distance, -s, -s]), np.array([distance, s, -s]), np.array([distance, -s, s]), pixel_size=pixel, **kw)


def motion_of(c, big=False):
    np, rng = c.np, c.rng
    ax = np.array([rng.gauss(0, 1) for _ in range(3)])
    if rng.random() < 0.5:
        ax = np.array([[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0]][rng.randrange(3)])
    ax = ax / np.linalg.norm(ax)
    ang = math.radians(rng.choice([rng.uniform(0.5, 5.0), rng.uniform(5, 60), rng.uniform(60, 179)] if big else [rng.uniform(0.5, 5.0), rng.uniform(5, 40)]))
    tr = np.array([rng.uniform(-5, 5) for _ in range(3)]) if rng.random() < 0.6 else np.zeros(3)
    return c.mod("motion").RigidBodyMotion(ax, ang, tr)


def polycrystal_of(c, n=None, nphases=None, strain=True, mesh=None, spread=10.0, size=4.0):
    np, rng = c.np, c.rng
    n = n or rng.randint(1, 4)
    mesh = mesh if mesh is not None else tetra_mesh(c, n, spread, size)
    n = mesh.number_of_elements
    nphases = nphases or rng.choice([1, 1, 2, 3])
    phases = [c.mod("phase").Phase(*CELLS[rng.randrange(len(CELLS))]) for _ in range(nphases)]
    U = np.array([euler_rot(np, rng) for _ in range(n)])
    eps = np.zeros((n, 3, 3))
    if strain:
        for e in range(n):
            a = np.array([[rng.uniform(-1, 1) for _ in range(3)] for _ in range(3)]) * 2e-3
            eps[e] = (a + a.T) / 2
    pm = np.array([rng.randrange(nphases) for _ in range(n)])
    pc = c.mod("polycrystal").Polycrystal(mesh, U, eps, phases if nphases > 1 else phases[0], pm)
    return pc, U, eps, pm, phases


# ---------------------------------------------------------------------- symbolic scene
class Obj(object):
    """bare carrier of attributes (stands for an object whose constructor is outside the obligation)"""


def sym_scene(c, nph=1, sf=None, box_beam=False):
    """Polycrystal object with arbitrary contents satisfying its data invariants (sizes, rotation matrices, valid phase map)"""
    E = c.dim("E", 1)
    pc = object.__new__(c.mod("polycrystal").Polycrystal)
    mesh = object.__new__(c.mod("mesh").TetraMesh)
    mesh.coord = c.ten("coord", (c.dim("NN", 4), 3))
    mesh.espherecentroids = c.ten("esph", (E, 3))
    mesh.number_of_elements = E
    pc.mesh_lab = mesh
    pc.mesh_volumes = c.ten("evol", (E,), 0, None, open=True)
    pc.orientation_lab = c.rot("U", (E,))
    pc._eB = c.ten("B", (E, 3, 3))
    pc.element_phase_map = c.ten("pmap", (E,), 0, nph - 1, dtype="int")
    pc.phases = []
    for i in range(nph):
        ph = object.__new__(c.mod("phase").Phase)
        H = c.dim("H%d" % i, 0)
        ph.miller_indices = c.ten("hkl%d" % i, (H, 3), lib="np")
        ph.structure_factors = c.ten("sf%d" % i, (H, 2), lib="np") if sf else None
        ph._setup_diffracting_planes = lambda *a, **k: None
        pc.phases.append(ph)
    beam = object.__new__(c.mod("beam").Beam)
    wl = c.real("wavelength", 0, None, open=True, near=(0.001, 100))
    kh = c.unit("khat")
    beam.wavelength = wl
    kn = 2 * c.pi / wl
    beam.wave_vector = c.fnten(lambda q: kn * c.at(kh, q), (3,))
    beam.polarization_vector = c.unit("pol")
    beam.halfspaces = c.ten("halfspaces", (c.dim("HS", 1), 4))
    axis = c.unit("axis")
    ang = c.real("angle", 0, c.pi, open=True)
    rbm = c.mod("motion").RigidBodyMotion(axis, ang, c.ten("trans", (3,)), c.ten("orig", (3,)))
    return pc, beam, rbm


def solver_contract(c):
    """callers of the Laue solver are checked against its contract (proved in C02/C03), not its body.
    Returns the list of calls made."""
    calls = []
    if not c.sym:
        return calls

    def stub(G_0, rho_0_factor, rho_1_factor, rho_2_factor, delta_omega):
        k = len(calls)
        n, three, p = c.shape(G_0)
        m = c.dim("events%d" % k, 0)
        gr = c.ten("ev_g%d" % k, (m,), 0, n - 1, dtype="int")
        pl = c.ten("ev_p%d" % k, (m,), 0, p - 1, dtype="int")
        ti = c.ten("ev_t%d" % k, (m,), 0, 1)
        snap = c.snapshot(G_0)
        G = c.fnten(lambda e, q: c.at(snap, c.at(gr, e), q, c.at(pl, e)), (m, 3))
        rho = tuple(c.snapshot(r) for r in (rho_0_factor, rho_1_factor, rho_2_factor))
        calls.append(dict(G0=snap, rho=rho, ang=delta_omega, m=m, g=gr, p=pl, t=ti, G=G))
        return gr, pl, ti, G
    c.mod("laue")._find_solutions_to_tangens_half_angle_equation = stub
    return calls


def any_detector(c, distance=None, size=None, tilt=True, **kw):
    """a real detector of random placement (tilted, off centre, unequal edges and pixels) downstream of the beam"""
    np, rng = c.np, c.rng
    L = distance or rng.uniform(150, 900)
    H, W = size or (rng.uniform(0.3, 1.2) * L, rng.uniform(0.3, 1.2) * L)
    R = rodrigues(np, unitv(c), rng.uniform(0, 0.35)) if tilt and rng.random() < 0.7 else np.eye(3)
    y, z = R @ np.array([0, 1.0, 0]), R @ np.array([0, 0, 1.0])
    if rng.random() < 0.3:
        y = -y
    cen = np.array([L, rng.uniform(-0.2, 0.2) * W, rng.uniform(-0.2, 0.2) * H])
    c0 = cen - y * W / 2 - z * H / 2
    if "n_pixels" not in kw and "pixel_size" not in kw:
        kw["n_pixels"] = (rng.randint(20, 60), rng.randint(20, 60))
    return c.mod("detector").Detector(c0, c0 + y * W, c0 + z * H, **kw), c0, y, z, H, W
