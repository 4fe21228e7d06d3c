"""C18  saving and loading."""
import copy
import math
import os
import types
from engine.api import case, Skip
from contracts._scene import *
from contracts.c01_motion import motion
from contracts.c07_transform import mesh_parts

NAMES = ["a", "run.1/a", "a{x}", "a{x}{x}", "a{X}", "a{x}.bak", "sp ace.v2", "{x}", "dir{x}/a", "a{n}", "/a"]


def paths(c, ext, hidden=True):
    """a path to save to and the file that has to be written"""
    k = c.pick("path", [n for n in NAMES if hidden or n != "{x}"]).replace("{x}", ext).replace("{X}", ext.upper()).replace("{n}", ext[1:])
    p = c.tmp("s") + "/" + k
    if not c.sym:
        os.makedirs(os.path.dirname(p), exist_ok=True)
    return p, p if p.endswith(ext) else p + ext


def tensorlike(c, x):
    if c.sym:
        from engine.tensor import Ten
        return isinstance(x, Ten)
    return c.torch.is_tensor(x) or type(x).__module__ == "numpy" and hasattr(x, "shape") and x.dtype.kind in "fiub"


def number(c, x):
    if c.sym:
        from engine.tensor import S
        if isinstance(x, S):
            return True
    return isinstance(x, (int, float))


def same_state(c, name, a, b, skip=(), depth=0):
    """every part of the state of a is in b with the same value"""
    if depth > 7:
        return
    if tensorlike(c, a):
        if not tensorlike(c, b):
            c.ensure(name + " is a tensor or array", number(c, b) and len(a.shape) == 0)
            c.same(name, c.at(a), b)
            return
        c.ensure(name + " keeps its container", c.torch.is_tensor(a) == c.torch.is_tensor(b))
        sh = c.shape(a) if c.sym else tuple(a.shape)
        c.same_shape(name, b, sh)
        if c.sym:
            c.same_t(name, b, sh, lambda *i: c.at(a, *i))
        else:
            x, y = np_(a), np_(b)
            s = float(c.np.max(c.np.abs(x))) if x.size and x.dtype.kind == "f" else 1.0
            c.ensure(name, bool(c.np.allclose(x, y, rtol=1e-9, atol=1e-9 * max(s, 1e-300), equal_nan=True)))
    elif a is None or isinstance(a, (str, bool)):
        c.ensure(name, type(a) is type(b) and a == b)
    elif number(c, a):
        if tensorlike(c, b):
            c.ensure(name + " is a number", len(b.shape) == 0)
            b = c.at(b)
        c.same(name, b, a)
    elif isinstance(a, (list, tuple)):
        c.ensure(name + " has all items", isinstance(b, (list, tuple)) and len(a) == len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            same_state(c, "%s[%d]" % (name, k), x, y, skip, depth + 1)
    elif isinstance(a, dict):
        c.ensure(name + " has all keys", isinstance(b, dict) and set(a) == set(b))
        for k in a:
            same_state(c, "%s[%s]" % (name, k), a[k], b[k], skip, depth + 1)
    elif type(a).__module__.startswith("xrd_simulator"):
        c.ensure(name + " has its class", type(a).__name__ == type(b).__name__)
        for k, v in vars(a).items():
            if k in skip or isinstance(v, types.FunctionType) or isinstance(v, types.MethodType):
                continue
            if k not in vars(b):
                c.ensure(name + "." + k + " is there", k.startswith("_") and k != "_eB")
                continue
            same_state(c, name + "." + k, v, vars(b)[k], skip, depth + 1)
    elif type(a).__name__ in ("Mesh", "MioMesh"):
        same_state(c, name + ".points", a.points, b.points, skip, depth + 1)
        same_state(c, name + ".cells", a.cells_dict["tetra"], b.cells_dict["tetra"], skip, depth + 1)


def roundtrip(c, cls, ext, obj, skip=(), **kw):
    p, file = paths(c, ext, not kw.get('save_mesh_as_xdmf'))
    old = copy.deepcopy(obj)
    obj.save(p, **kw)
    same_state(c, "saving keeps the object", old, obj, skip)
    q = p
    while q.endswith(ext):
        q = q[:-len(ext)]
    bad, _ = c.attempt(lambda: cls.load(q), ValueError)
    c.ensure("a path without the extension is refused", bad)
    none, new = c.attempt(lambda: cls.load(file), FileNotFoundError)
    c.ensure("the file is written under the path with its extension", not none)
    same_state(c, "loaded", old, new, skip)
    obj.save(file, **kw)
    new2 = cls.load(file)
    same_state(c, "saved again", old, new2, skip)
    new.save(p, **kw)
    new3 = cls.load(file)
    same_state(c, "second generation", old, new3, skip)
    return new


@case("C18", ["motion.RigidBodyMotion.save", "motion.RigidBodyMotion.load"], samples=40, budget=20)
def motions(c):
    """axis, angle, translation and origin of a motion survive the file"""
    rbm, k, ang, tr, og = motion(c)
    if c.pick("inverse", [False, True]):
        rbm = rbm.inverse()
    new = roundtrip(c, c.mod("motion").RigidBodyMotion, ".motion", rbm)
    if not c.sym:
        x = c.torch.tensor([[c.rng.uniform(-9, 9) for _ in range(3)] for _ in range(4)])
        t = c.rng.random()
        same_state(c, "moves the same", rbm(x, t), new(x, t))
        same_state(c, "turns the same", rbm.rotate(x, t), new.rotate(x, t))


@case("C18", ["detector.Detector.save", "detector.Detector.load"], samples=25, budget=20)
def detectors(c):
    """every attribute of a detector in any state, set by the constructor or later"""
    D = c.mod("detector").Detector
    if c.sym:
        d = object.__new__(D)
        for n in ("det_corner_0", "det_corner_1", "det_corner_2", "zdhat", "ydhat", "normal"):
            setattr(d, n, c.ten(n, (3,)))
        for n in ("zmax", "ymax", "pixel_size_z", "pixel_size_y"):
            v = c.ten(n, ())
            setattr(d, n, v)
        nz, ny, k = c.dim("nz", 1), c.dim("ny", 1), c.dim("K", 1)
        d.pixel_coordinates = c.ten("pix", (nz, ny, 3))
        d.gaussian_kernel = c.ten("kernel", (k, k), near=(0, 1))
        d.gaussian_sigma, d.kernel_threshold, d._max_gaussian_kernel_radius = c.real("sigma", 0, None, open=True, near=(0, 9)), c.real("thr", 0, None, near=(0, 1)), c.int("radius", 1)
        d.lorentz_factor, d.polarization_factor, d.structure_factor = c.pick("factors", [(True, True, False), (False, True, True), (True, False, True)])
        d.frames = [c.ten("frame", (nz, ny))]
    else:
        rng = c.rng
        kw = {}
        if rng.random() < 0.7:
            kw = dict(gaussian_sigma=rng.choice([0.2, 1.0, 3.7]), kernel_threshold=rng.choice([0.02, 0.4, 0.001]), max_gaussian_kernel_radius=rng.choice([1, 2, 5]),
                      use_lorentz=rng.random() < 0.5, use_polarization=rng.random() < 0.5, use_structure_factor=rng.random() < 0.5)
        d, *_ = any_detector(c, **kw)
        if rng.random() < 0.3:
            d.lorentz_factor, d.gaussian_sigma = not d.lorentz_factor, 0.77
        if rng.random() < 0.4:
            d.frames = [c.torch.rand(3, 4)]
    new = roundtrip(c, D, ".det", d)
    if not c.sym:
        x = c.torch.tensor([[c.rng.uniform(-9, 9) for _ in range(3)] for _ in range(4)])
        k = c.torch.tensor([[1.0, c.rng.uniform(-.2, .2), c.rng.uniform(-.2, .2)] for _ in range(4)])
        same_state(c, "intersects the same", d._get_intersection(k, x), new._get_intersection(k, x))
        m = c.torch.rand(1, *np_(d.pixel_coordinates).shape[:2])
        same_state(c, "blurs the same", d._conv2d_gaussian_kernel(m.clone()), new._conv2d_gaussian_kernel(m.clone()))


@case("C18", ["beam.Beam.save", "beam.Beam.load"], samples=25, budget=20)
def beams(c):
    """vertices, bounding planes, wave vector, wavelength, polarisation and centroid"""
    B = c.mod("beam").Beam
    if c.sym:
        def planes(self, v):
            """contract of set_beam_vertices: some bounding planes of the hull (another choice each time), centroid of the vertices"""
            self.vertices = v.clone()
            self.centroid = c.torch.mean(self.vertices, axis=0)
            self.halfspaces = c.ten("planes%d" % len(made), (c.dim("P%d" % len(made), 4), 4))
            made.append(1)
        made = []
        B.set_beam_vertices = planes
        b = object.__new__(B)
        wl = c.real("wavelength", 0, None, open=True)
        k, p = c.unit("k"), c.unit("pol")
        c.assume(c.eq(sum(c.at(k, q) * c.at(p, q) for q in range(3)), 0))
        kn = 2 * c.pi / wl
        b.wavelength = wl
        b.wave_vector = c.fnten(lambda q: kn * c.at(k, q), (3,))
        b.polarization_vector = p
        b.set_beam_vertices(c.ten("vertices", (c.dim("V", 4), 3)))
    else:
        d = unitv(c) if c.rng.random() < 0.7 else [1.0, 0.0, 0.0]
        b = beam_of(c, width=c.rng.uniform(0.5, 90), wavelength=c.rng.uniform(0.1, 2), direction=d, pol=unitv(c), x=(c.rng.uniform(-50, -1), c.rng.uniform(1, 50)))
        if c.rng.random() < 0.5:
            b.set_beam_vertices(c.torch.tensor([[c.rng.gauss(0, 1) * 9 for _ in range(3)] for _ in range(4)]))
    new = roundtrip(c, B, ".beam", b)
    if not c.sym:
        x = c.torch.tensor([[c.rng.uniform(-9, 9) for _ in range(3)] for _ in range(30)])
        same_state(c, "contains the same", b._contains(x.T), new._contains(x.T))


@case("C18", ["polycrystal.Polycrystal.save", "polycrystal.Polycrystal.load", "polycrystal.Polycrystal._move_mesh_to_torch"], samples=1, budget=20, name="polycrystals_sym", concrete=False)
def polycrystals_sym(c):
    """every part of a polycrystal of any size in any state"""
    E, NN = c.dim("E", 1), c.dim("NN", 4)
    P = c.mod("polycrystal").Polycrystal
    pc = object.__new__(P)
    pc.mesh_lab = c.mod("mesh").TetraMesh()
    vars(pc.mesh_lab).update(vars(mesh_parts(c, E, NN)))
    pc.mesh_lab.efaces = c.ten("efaces", (E, 4, 3), 0, NN - 1, dtype="int")
    pc.mesh_lab.dof = c.ten("dof", (E, 12), 0, None, dtype="int")
    ms = object.__new__(c.mod("mesh").TetraMesh)
    for k, v in vars(pc.mesh_lab).items():
        setattr(ms, k, v if v is None or k in ("enod", "efaces", "dof", "number_of_elements") else c.ten("sample_" + k, c.shape(v)))
    pc.mesh_sample = ms
    for n in ("orientation_lab", "strain_lab", "orientation_sample", "strain_sample", "_eB"):
        setattr(pc, n, c.ten(n, (E, 3, 3)))
    pc.mesh_volumes = c.ten("vol", (E,), 0, None)
    pc.element_phase_map = c.ten("pm", (E,), 0, 1, dtype="int")
    pc.phases = []
    for k in range(2):
        ph = object.__new__(c.mod("phase").Phase)
        ph.unit_cell = [c.real("cell%d%d" % (k, q), 0, None, open=True) for q in range(6)]
        ph.sgname, ph.path_to_cif_file = "P1", None
        H = c.dim("H%d" % k, 0)
        ph.miller_indices = c.ten("hkl%d" % k, (H, 3), lib="np")
        ph.structure_factors = c.ten("sf%d" % k, (H, 2), lib="np")
        pc.phases.append(ph)
    roundtrip(c, P, ".pc", pc, save_mesh_as_xdmf=False)


@case("C18", ["polycrystal.Polycrystal.save", "polycrystal.Polycrystal.load"], sym=False, samples=14, budget=40, bounded="random polycrystals of 1-4 crystals, saved before or after motions and diffraction")
def polycrystals(c):
    """state and behaviour of real polycrystals after a history of motions and simulations; the mesh file beside it holds the sample state"""
    np, rng = c.np, c.rng
    pc, U, eps, pm, phases = polycrystal_of(c)
    for _ in range(rng.randint(0, 2)):
        pc.transform(motion_of(c), rng.random())
    beam = beam_of(c, width=rng.uniform(5, 60))
    rbm = motion_of(c)
    def run(p):
        """peaks in a fixed order (the order of the lattice planes is arbitrary)"""
        r = np_(p.diffract(beam, rbm, max_bragg_angle=math.radians(8), verbose=False)["peaks"])[:, :24]
        return r[np.lexsort((r[:, 6].round(7), r[:, 4], r[:, 3], r[:, 2], r[:, 1], r[:, 0]))]
    if rng.random() < 0.4:
        run(pc)
    xdmf = rng.random() < 0.7
    new = roundtrip(c, c.mod("polycrystal").Polycrystal, ".pc", pc, save_mesh_as_xdmf=xdmf)
    a, b = run(pc), run(new)
    c.ensure("diffracts the same", a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-7, equal_nan=True))
    if xdmf:
        import meshio
        files = [os.path.join(r, f) for r, _, fs in os.walk(c.tmp("s")) for f in fs if f.endswith(".xdmf")]
        c.ensure("one mesh file beside the saved file", len(files) == 1)
        pcs = [os.path.join(r, f) for r, _, fs in os.walk(c.tmp("s")) for f in fs if f.endswith(".pc")]
        c.ensure("mesh file beside the saved file", files[0][:-5] == pcs[0][:-3])
        m = meshio.read(files[0])
        same_state(c, "mesh file nodes", np_(pc.mesh_sample.coord), m.points)
        c.ensure("mesh file elements", np.array_equal(np_(pc.mesh_sample.enod), m.cells_dict["tetra"].astype(int)))
        d = {k: np.asarray(v[0], float).reshape(-1) for k, v in m.cell_data.items()}
        e = np_(pc.strain_sample)
        for k, (i, j) in dict(xx=(0, 0), yy=(1, 1), zz=(2, 2), xy=(0, 1), xz=(0, 2), yz=(1, 2)).items():
            c.ensure("strain component " + k, np.allclose(d["Strain Tensor Component " + k], e[:, i, j], atol=1e-12))
        c.ensure("phase index", np.array_equal(d["Material Phase Index"], np_(pc.element_phase_map)))
        Us = np_(pc.orientation_sample)
        p1, P, p2 = [np.radians(d["Bunge Euler Angle %s [degrees]" % s]) for s in ("phi_1", "Phi", "phi_2")]
        Rz = lambda a: np.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1]])
        Rx = lambda a: np.array([[1, 0, 0], [0, math.cos(a), -math.sin(a)], [0, math.sin(a), math.cos(a)]])
        for k in range(len(Us)):
            c.ensure("orientation angles", np.allclose(Rz(p1[k]) @ Rx(P[k]) @ Rz(p2[k]), Us[k], atol=1e-6))
        mis = np_(c.mod("utils")._get_misorientations(pc.orientation_sample))
        c.ensure("misorientation", np.allclose(np.radians(d["Misorientation from mean orientation [degrees]"]), mis, atol=1e-7))


@case("C18", ["mesh.TetraMesh.save", "mesh.TetraMesh.load", "mesh.TetraMesh._build_tetramesh"], samples=20, budget=20)
def meshes(c):
    """nodes and elements of a mesh of any size survive; the loaded mesh is the one built from them"""
    M = c.mod("mesh").TetraMesh
    if c.sym:
        E, NN = c.dim("E", 1), c.dim("NN", 4)
        m = c.mod("mesh").TetraMesh()
        vars(m).update(vars(mesh_parts(c, E, NN)))
        built = []

        def build(cls, mio):
            """contract of _build_tetramesh (C08): a mesh with the given nodes and elements and what follows from them"""
            built.append(mio)
            return "mesh"
        M._build_tetramesh = classmethod(build)
    else:
        m = tetra_mesh(c, c.rng.randint(1, 4))
        if c.rng.random() < 0.5:
            m.update(motion_of(c), c.rng.random())
        if c.rng.random() < 0.3:
            m.translate([1.0, -2.0, 0.25])
        E = m.number_of_elements
    p, file = paths(c, ".xdmf", False)
    old = copy.deepcopy(m)
    data = None
    if c.pick("data", [False, True]):
        lib = c.pick("data in", ["torch", "np"])
        x = c.ten("x", (E,), None if c.sym else -5, None if c.sym else 5, lib=lib)
        data = {"some value": x}
    twice = c.pick("twice", [False, True])
    m.save(p, element_data=data)
    if twice:
        m.save(p, element_data=data)
    same_state(c, "saving keeps the mesh", old, m)
    if data is not None:
        c.ensure("saving keeps the data", list(data) == ["some value"] and data["some value"] is x)
    none, new = c.attempt(lambda: M.load(file), FileNotFoundError)
    c.ensure("the file is written under the path with its extension", not none)
    if c.sym:
        c.ensure("one mesh is built", len(built) == 1 and new == "mesh")
        same_state(c, "nodes", old.coord, c.mod("utils").ensure_torch(built[0].points))
        en = built[0].cells_dict["tetra"]
        c.same_shape("elements", en, (E, 4))
        for e in c.each(E, name="e"):
            for k in range(4):
                c.same("elements", c.at(en, e, k), c.at(old.enod, e, k) * 1)
    else:
        same_state(c, "loaded", old, new, skip=("_mesh", "dof"))
    if data is not None:
        if c.sym:
            w = built[0].cell_data["some value"]
            c.ensure("one block of values", len(w) == 1)
            w = w[0]
        else:
            import meshio
            w = meshio.read(file).cell_data["some value"][0]
        w = c.np.array(w) if not tensorlike(c, w) else w
        c.same_shape("element data", w, (E,))
        for e in c.each(E, name="e"):
            c.same("element data", c.at(w, e), c.at(x, e))
