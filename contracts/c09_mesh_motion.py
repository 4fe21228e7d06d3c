"""C09  a mesh that is translated, rotated and moved stays one rigid body with consistent element quantities."""
import math
from engine.api import case
from contracts._scene import *
from contracts.c01_motion import motion, spec_motion, spec_rot, vec
from contracts.c07_transform import mesh_parts
from contracts.c08_mesh import check_mesh

MM = "mesh.TetraMesh."
POINTS = ("coord", "ecentroids", "espherecentroids")


class Carrier(object):
    points = None


def old_of(c, m):
    return {x: c.snapshot(getattr(m, x)) for x in ("coord", "enormals", "ecentroids", "espherecentroids", "centroid", "eradius", "evolumes", "enod")}


def check(c, m, old, E, NN, pt, nrm):
    for name, n in (("coord", NN), ("ecentroids", E), ("espherecentroids", E)):
        c.same_t(name, getattr(m, name), (n, 3), lambda i, q: pt(vec(c, old[name], i))[q])
    c.same_t("normals", m.enormals, (E, 4, 3), lambda i, f, q: nrm(vec(c, old["enormals"], i, f))[q])
    c.same_t("centroid", m.centroid, (3,), lambda q: pt(vec(c, old["centroid"]))[q])
    for name in ("eradius", "evolumes", "enod"):
        c.unchanged(name, getattr(m, name), old[name])


def state(c):
    E, NN = c.dim("E", 1), c.dim("NN", 4)
    m = mesh_parts(c, E, NN)
    m._mesh = Carrier()
    return m, E, NN, old_of(c, m)


@case("C09", [MM + "translate"], samples=25)
def translate(c):
    """every point of the mesh moves by the vector; directions, sizes and connectivity do not change"""
    m, E, NN, old = state(c)
    lib = c.pick("lib", ["np", "torch"])
    v = c.ten("v", (3,), lib=lib)
    v0 = c.snapshot(v)
    m.translate(v)
    check(c, m, old, E, NN, lambda p: [p[q] + c.at(v0, q) for q in range(3)], lambda p: p)
    c.unchanged("vector kept", v, v0)


@case("C09", [MM + "rotate", MM + "update", "motion.RigidBodyMotion.__init__", "motion.RigidBodyMotion.__call__", "motion.RigidBodyMotion.rotate"], samples=25)
def rotate(c):
    """every point turns about the axis through the origin by the angle, normals with it"""
    m, E, NN, old = state(c)
    axis = c.unit("axis", lib="np")
    ang = c.real("angle", 0, c.pi, open=True)
    a0 = c.snapshot(axis)
    m.rotate(axis, ang)
    r = lambda p: spec_rot(c, vec(c, a0), ang, p)
    check(c, m, old, E, NN, r, r)


@case("C09", [MM + "update", "motion.RigidBodyMotion.__call__", "motion.RigidBodyMotion.rotate"], samples=25)
def update(c):
    """every point goes through the rigid motion at that time, normals through its rotation only"""
    m, E, NN, old = state(c)
    rbm, k, ang, tr, og = motion(c)
    t = c.real("t", near=(0, 1))
    m.update(rbm, t)
    check(c, m, old, E, NN, lambda p: spec_motion(c, (rbm, k, ang, tr, og), p, t), lambda p: spec_rot(c, k, ang * t, p))


@case("C09", [MM + "translate", MM + "rotate", MM + "update", MM + "generate_mesh_from_vertices"], sym=False, samples=60,
      bounded="histories of 1-6 random operations on meshes of 1-4 elements")
def histories(c):
    """after any history the element quantities are those of a mesh built afresh from the moved nodes"""
    np, rng = c.np, c.rng
    m = tetra_mesh(c, rng.randint(1, 4))
    X, enod = np_(m.coord).copy(), np_(m.enod).astype(int).copy()
    vol0 = np_(m.evolumes).copy()
    ops = []
    for _ in range(rng.randint(1, 6)):
        op = rng.choice(["translate", "rotate", "update"])
        if op == "translate":
            v = np.array([rng.uniform(-20, 20) for _ in range(3)])
            keep = v.copy()
            m.translate(v if rng.random() < 0.6 else c.mod("utils").ensure_torch(v))
            c.ensure("vector kept", np.array_equal(v, keep))
            X = X + keep
            ops.append([op, keep.tolist()])
        elif op == "rotate":
            ax = unitv(c)
            a = rng.choice([rng.uniform(0.01, 0.5), rng.uniform(0.5, 3.1), math.pi / 2])
            m.rotate(ax, a)
            X = X @ rodrigues(np, ax, a).T
            ops.append([op, ax.tolist(), a])
        else:
            rbm = motion_of(c, big=True)
            if rng.random() < 0.5:
                rbm.origin = c.mod("utils").ensure_torch(np.array([rng.uniform(-9, 9) for _ in range(3)]))
            t = rng.choice([0.0, 1.0, rng.random()])
            m.update(rbm, t)
            o = np_(rbm.origin)
            X = (X - o) @ rodrigues(np, np_(rbm.rotation_axis), float(rbm.rotation_angle) * t).T + o + np_(rbm.translation) * t
            ops.append([op, t])
    c.inputs["ops"] = ops
    check_mesh(c, m, X, enod)
    c.ensure("volumes kept", np.allclose(np_(m.evolumes), vol0, rtol=1e-12))
    fresh = c.mod("mesh").TetraMesh.generate_mesh_from_vertices(X, enod)
    for name in ("enormals", "ecentroids", "eradius", "espherecentroids", "evolumes", "centroid"):
        a, b = np_(getattr(m, name)), np_(getattr(fresh, name))
        c.ensure(name + " as built afresh", a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-6))
