"""C07  moving a polycrystal: orientations and strains turn with the crystals, diffraction is the one of the moved sample."""
import math
from engine.api import case
from contracts._scene import *
from contracts.c01_motion import motion, spec_motion, spec_rot, vec

T = ["polycrystal.Polycrystal.transform", "mesh.TetraMesh.update", "motion.RigidBodyMotion.rotate", "motion.RigidBodyMotion.__call__",
     "motion._RodriguezRotator.get_rotation_matrix"]


def mesh_parts(c, E, NN):
    m = object.__new__(c.mod("mesh").TetraMesh)
    m.coord = c.ten("coord", (NN, 3))
    m.enod = c.ten("enod", (E, 4), 0, NN - 1, dtype="int")
    m.enormals = c.ten("enormals", (E, 4, 3))
    m.ecentroids = c.ten("ecent", (E, 3))
    m.espherecentroids = c.ten("esph", (E, 3))
    m.centroid = c.ten("cent", (3,))
    m.eradius = c.ten("erad", (E,), 0, None)
    m.evolumes = c.ten("evol", (E,), 0, None)
    m.number_of_elements = E
    return m


@case("C07", T, samples=25)
def transform_law(c):
    """U -> R U, strain -> R strain R^T for every element, with the R of the motion at that time; every point of the mesh
    goes through the motion; what is fixed to the crystal (lattice, phases, volumes, reference copies) is untouched"""
    E, NN = c.dim("E", 1), c.dim("NN", 4)
    rbm, k, ang, tr, og = motion(c)
    t = c.real("t", near=(0, 1))
    pc = object.__new__(c.mod("polycrystal").Polycrystal)
    mesh = mesh_parts(c, E, NN)
    pc.mesh_lab, pc.mesh_sample = mesh, "reference"
    U, eps = c.ten("U", (E, 3, 3)), c.ten("eps", (E, 3, 3))
    pc.orientation_lab, pc.strain_lab = U, eps
    pc.orientation_sample, pc.strain_sample = c.ten("Us", (E, 3, 3)), c.ten("es", (E, 3, 3))
    pc._eB, pc.mesh_volumes, pc.element_phase_map, pc.phases = c.ten("B", (E, 3, 3)), c.ten("vol", (E,)), c.ten("pm", (E,), 0, 3, dtype="int"), []
    kept = [(x, getattr(pc, x), c.snapshot(getattr(pc, x))) for x in ("orientation_sample", "strain_sample", "_eB", "mesh_volumes", "element_phase_map")]
    old = {x: c.snapshot(getattr(mesh, x)) for x in ("coord", "enormals", "ecentroids", "espherecentroids", "centroid", "eradius", "evolumes", "enod")}
    u0, e0 = c.snapshot(U), c.snapshot(eps)
    pc.transform(rbm, t)
    p = (rbm, k, ang, tr, og)
    basis = [[1.0 if q == j else 0.0 for q in range(3)] for j in range(3)]
    R = [[spec_rot(c, k, ang * t, basis[j])[i] for j in range(3)] for i in range(3)]
    c.same_shape("orientation batch", pc.orientation_lab, (E, 3, 3))
    c.same_shape("strain batch", pc.strain_lab, (E, 3, 3))
    for e in c.each(E, name="e"):
        for i in range(3):
            for j in range(3):
                c.same("orientation[%d%d]" % (i, j), c.at(pc.orientation_lab, e, i, j), sum(R[i][r] * c.at(u0, e, r, j) for r in range(3)))
                c.same("strain[%d%d]" % (i, j), c.at(pc.strain_lab, e, i, j),
                       sum(R[i][r] * c.at(e0, e, r, s) * R[j][s] for r in range(3) for s in range(3)))
    m = pc.mesh_lab
    for name, n in (("coord", NN), ("ecentroids", E), ("espherecentroids", E)):
        c.same_t(name, getattr(m, name), (n, 3), lambda i, q: spec_motion(c, p, vec(c, old[name], i), t)[q])
    c.same_t("normals", m.enormals, (E, 4, 3), lambda i, f, q: spec_rot(c, k, ang * t, vec(c, old["enormals"], i, f))[q])
    c.same_t("centroid", m.centroid, (3,), lambda q: spec_motion(c, p, vec(c, old["centroid"]), t)[q])
    for name in ("eradius", "evolumes", "enod"):
        c.unchanged(name, getattr(m, name), old[name])
    for name, v, s in kept:
        c.ensure(name + " kept", getattr(pc, name) is v)
        c.unchanged(name, v, s)
    c.ensure("reference mesh kept", pc.mesh_sample == "reference")


def rot_of(c, k, ang):
    return rodrigues(c.np, k, ang)


@case("C07", T + ["polycrystal.Polycrystal.__init__", "polycrystal.Polycrystal.diffract"], sym=False, samples=25,
      bounded="random polycrystals of 1-4 crystals, histories of up to 4 motions")
def history(c):
    """after any sequence of motions the crystals carry the product of the rotations, the strain seen from the crystal is
    what it was, the mesh is where the motions take its nodes, the reference copies stay, and the lattices match the new lab strain"""
    np = c.np
    pc, U, eps, pm, phases = polycrystal_of(c)
    u0, e0 = U.copy(), eps.copy()
    x0 = np_(pc.mesh_lab.coord).copy()
    vol0 = np_(pc.mesh_volumes).copy()
    P, X = np.eye(3), x0.copy()
    steps = []
    for _ in range(c.rng.randint(1, 4)):
        rbm = motion_of(c, big=True)
        t = c.rng.choice([1.0, 1, 0.5, c.rng.random(), 0.0])
        if c.rng.random() < 0.5:
            rbm.origin = c.mod("utils").ensure_torch(np.array([c.rng.uniform(-9, 9) for _ in range(3)]))
        R = rodrigues(np, np_(rbm.rotation_axis), float(rbm.rotation_angle) * t)
        o, tr = np_(rbm.origin), np_(rbm.translation)
        steps.append([np_(rbm.rotation_axis).tolist(), float(rbm.rotation_angle), tr.tolist(), t])
        pc.transform(rbm, t)
        P = R @ P
        X = (X - o) @ R.T + o + tr * t
    c.inputs["steps"] = steps
    n = len(U)

    def close(name, a, b, tol=1e-9):
        a, b = np_(a), np.asarray(b)
        c.ensure(name + " shape", a.shape == b.shape)
        d = float(np.max(np.abs(a - b))) if a.shape == b.shape and a.size else 0.0
        c.ensure(name, d <= tol * (1 + float(np.max(np.abs(b)))))
    close("orientations", pc.orientation_lab, P @ u0)
    close("strains", pc.strain_lab, P @ e0 @ P.T)
    close("coordinates", pc.mesh_lab.coord, X)
    close("sample orientations", pc.orientation_sample, u0)
    close("sample strains", pc.strain_sample, e0)
    close("sample coordinates", pc.mesh_sample.coord, x0)
    close("volumes", pc.mesh_volumes, vol0)
    close("input orientation", U, u0)
    close("input strain", eps, e0)
    enod = np_(pc.mesh_lab.enod)
    close("centroids", pc.mesh_lab.ecentroids, X[enod].mean(axis=1))
    for e in range(n):
        close("lattice", pc._eB[e], strained_B(np, phases[pm[e]].unit_cell, np_(pc.orientation_lab[e]), np_(pc.strain_lab[e])), 1e-7)


def table(c, pc, beam, rbm, **kw):
    return np_(pc.diffract(beam, rbm, verbose=False, **kw)["peaks"])


def rows_match(c, name, a, b, keys, tol=1e-6):
    """the rows of a (floats, by the given columns) are those of b, in any order"""
    np = c.np
    c.ensure(name + " count", len(a) == len(b))
    if len(a) != len(b) or not len(a):
        return
    used = np.zeros(len(b), bool)
    for r in a:
        d = np.max(np.abs(b - r) / (1 + np.abs(r)), axis=1)
        d[used] = np.inf
        j = int(np.argmin(d))
        c.ensure(name, d[j] <= tol)
        if d[j] > tol:
            return
        used[j] = True


@case("C07", T + ["polycrystal.Polycrystal.diffract", "polycrystal.Polycrystal._compute_peaks", "laue._find_solutions_to_tangens_half_angle_equation"],
      sym=False, samples=20, bounded="random scenes; one splitting point of the scan per sample")
def diffraction_of_the_moved_sample(c):
    """diffracting the sample moved to time s of a scan gives the events of the rest of the scan: same crystal, plane, scattering
    vector, source point; time counted from s"""
    np = c.np
    pc, U, eps, pm, phases = polycrystal_of(c, spread=30.0)
    M = c.mod("motion").RigidBodyMotion
    base = motion_of(c)
    ax = np_(base.rotation_axis)
    ang = math.radians(c.rng.uniform(10, 60))
    tr = ax * c.rng.uniform(-3, 3) if c.rng.random() < 0.5 else np.zeros(3)
    s = c.rng.uniform(0.2, 0.8)
    beam = beam_of(c, direction=(1.0, 0.0, 0.0) if c.rng.random() < 0.5 else unitv(c), pol=unitv(c))
    th = math.radians(c.rng.uniform(3, 8))
    full = table(c, pc, beam, M(ax, ang, tr), max_bragg_angle=th)
    pc.transform(M(ax, ang, tr), s)
    rest = table(c, pc, beam, M(ax, ang * (1 - s), tr * (1 - s)), max_bragg_angle=th)
    c.inputs["rows"] = [len(full), len(rest), s, ang]
    # events too close to the split or to the end of the scan may be lost to rounding
    margin = 1e-7
    if len(full) and np.any((np.abs(full[:, 6] - s) < margin) | (full[:, 6] > 1 - margin)):
        from engine.api import Skip
        raise Skip()
    later = full[full[:, 6] > s].copy()
    later[:, 6] = (later[:, 6] - s) / (1 - s)
    cols = [0, 1, 2, 3, 4, 6, 10, 11, 12, 16, 17, 18, 21]
    rows_match(c, "events of the rest of the scan", later[:, cols], rest[:, cols], cols)
