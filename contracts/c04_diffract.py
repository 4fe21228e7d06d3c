"""C04  coherence of the diffraction event table."""
import math
from engine.api import case
from contracts._scene import *
from contracts.c01_motion import spec_rot, spec_motion

F = ["polycrystal.Polycrystal._compute_peaks", "laue._get_G", "motion.RigidBodyMotion.rotate", "motion.RigidBodyMotion.__call__",
     "motion._RodriguezRotator.__call__"]
NAMES = ["grain_index", "phase_number", "h", "k", "l", "structure_factors", "diffraction_times", "G0_x", "G0_y", "G0_z", "Gx", "Gy", "Gz",
         "K_out_x", "K_out_y", "K_out_z", "Source_x", "Source_y", "Source_z", "lorentz_factors", "polarization_factors", "volumes", "2theta",
         "scherrer_fwhm", "peak_index"]


def rows(c, nph, sf):
    pc, beam, rbm = sym_scene(c, nph, sf)
    calls = solver_contract(c)
    peaks = pc._compute_peaks(beam, rbm)
    return pc, beam, rbm, calls, peaks


@case("C04", F, concrete=False, budget=15)
def row_contents(c):
    """every row of the table describes one event of one crystal of one phase, for any number of crystals, planes and events"""
    nph = c.pick("nph", [1, 2])
    sf = c.pick("sf", [False, True])
    pc, beam, rbm, calls, pk = rows(c, nph, sf)
    m = sum(k["m"] for k in calls)
    c.same_shape("table", pk, (m, 24))
    kv = [c.at(beam.wave_vector, q) for q in range(3)]
    axis = [c.at(rbm.rotation_axis, q) for q in range(3)]
    tr = [c.at(rbm.translation, q) for q in range(3)]
    og = [c.at(rbm.origin, q) for q in range(3)]
    ang = rbm.rotation_angle
    for e in c.each(m, name="e"):
        col = lambda j: c.at(pk, e, j)
        g = col(0)
        gi = c.floor(g)
        c.ensure("grain-is-an-element", c.and_(c.eq(g, gi), c.le(0, gi), c.lt(gi, pc.mesh_lab.number_of_elements)))
        c.ensure("phase-is-the-grains-phase", c.eq(col(1), c.at(pc.element_phase_map, gi)))
        t = col(6)
        c.ensure("time-in-motion", c.and_(c.le(0, t), c.le(t, 1)))
        G0 = [col(7 + q) for q in range(3)]
        for q in range(3):
            gu = sum(c.at(pc.orientation_lab, gi, q, i) * sum(c.at(pc._eB, gi, i, j) * col(2 + j) for j in range(3)) for i in range(3))
            c.same("G0[%d]" % q, G0[q], gu)
        G = spec_rot(c, axis, ang * t, G0)
        src = spec_rot(c, axis, ang * t, [c.at(pc.mesh_lab.espherecentroids, gi, q) - og[q] for q in range(3)])
        for q in range(3):
            c.same("G[%d]" % q, col(10 + q), G[q])
            c.same("K_out[%d]" % q, col(13 + q), G[q] + kv[q])
            c.same("source[%d]" % q, col(16 + q), src[q] + og[q] + tr[q] * t)
        c.same("volume", col(21), c.at(pc.mesh_volumes, gi))


@case("C04", ["polycrystal.Polycrystal.diffract", "beam.Beam._contains"], concrete=False, budget=15)
def only_illuminated_events(c):
    """diffract keeps exactly the events whose source lies inside every halfspace of the beam, in order, and numbers them"""
    pc, beam, rbm = sym_scene(c, 1)
    m = c.dim("M", 0)
    tab = c.ten("tab", (m, 24))
    pc._compute_peaks = lambda *a, **k: tab
    out = pc.diffract(beam, rbm, verbose=False)
    pk = out["peaks"]
    k = c.shape(pk)[0]
    c.ensure("columns", out["columns"] == NAMES)
    nh = c.shape(beam.halfspaces)[0]

    def lit(src):
        return c.forall(nh, lambda h: c.lt(sum(c.at(beam.halfspaces, h, q) * src[q] for q in range(3)) + c.at(beam.halfspaces, h, 3), 0))
    for e in c.each(k, name="e"):
        c.same("peak-index", c.at(pk, e, 24), e)
        c.ensure("illuminated", lit([c.at(pk, e, 16 + q) for q in range(3)]))
    c.same("count", k, c.nselected(m, lambda i: lit([c.at(tab, i, 16 + q) for q in range(3)])))


@case("C04", F + ["polycrystal.Polycrystal.diffract", "beam.Beam._contains"], sym=False, samples=30,
      bounded="random scenes of 1-6 crystals and 1-3 interleaved phases, narrow and wide beams, with and without structure factors")
def whole_table(c):
    """every row against an independent evaluation from the crystal it names; the dark events are absent; nothing else changes"""
    np, rng = c.np, c.rng
    pc, U, eps, pm, phases = polycrystal_of(c, n=rng.randint(1, 6), spread=30.0)
    beam = beam_of(c, width=rng.choice([15.0, 30.0, 500.0]), direction=(1.0, 0.0, 0.0) if rng.random() < 0.5 else unitv(c), pol=unitv(c))
    rbm = motion_of(c)
    th = math.radians(rng.uniform(3, 7))
    sfs = []
    if rng.random() < 0.5:
        # structure factors assigned per plane: each plane keeps its own, extinct planes are dropped
        for ph in phases:
            ph._setup_diffracting_planes(beam.wavelength, 0.0, th)
            m = len(ph.miller_indices)
            sf = np.array([[rng.uniform(-9, 9), rng.uniform(-9, 9)] if rng.random() < 0.7 else [0.0, 0.0] for _ in range(m)]).reshape(m, 2)
            table = {tuple(int(x) for x in h): s for h, s in zip(ph.miller_indices, sf)}
            sfs.append(table)
            ph.structure_factors = sf

            def keep(*a, **k):
                return None
            ph._setup_diffracting_planes = keep
    mesh = pc.mesh_lab
    frozen = [np_(x).copy() for x in (mesh.coord, mesh.espherecentroids, pc.orientation_lab, pc._eB, pc.strain_lab, beam.wave_vector, beam.vertices, rbm.translation, rbm.rotation_axis)]
    d = pc.diffract(beam, rbm, max_bragg_angle=th, verbose=False)
    pk = np_(d["peaks"])
    c.inputs["rows"] = [len(pk), float(pk.sum()) if len(pk) else 0]
    for a, b in zip(frozen, (mesh.coord, mesh.espherecentroids, pc.orientation_lab, pc._eB, pc.strain_lab, beam.wave_vector, beam.vertices, rbm.translation, rbm.rotation_axis)):
        c.ensure("inputs unchanged", bool(np.all(a == np_(b))))
    c.ensure("columns", list(d["columns"])[:25] == NAMES and pk.shape[1] == 25)
    c.ensure("numbered", bool(np.all(pk[:, 24] == np.arange(len(pk)))))
    c.ensure("context", d["beam"] is beam and d["rigid_body_motion"] is rbm and d["mesh_lab"] is pc.mesh_lab and d["wavelength"] == beam.wavelength)
    k, ax, ang, tr, og = np_(beam.wave_vector), np_(rbm.rotation_axis), float(rbm.rotation_angle), np_(rbm.translation), np_(rbm.origin).reshape(3)
    cen = np_(mesh.espherecentroids)
    coord, enod = np_(mesh.coord), np_(mesh.enod)
    hs = np_(beam.halfspaces)
    for r in pk[:200]:
        g, p, t = int(r[0]), int(r[1]), r[6]
        c.ensure("phase", p == pm[g] and r[0] == g)
        R = rodrigues(np, ax, ang * t)
        G0 = U[g] @ strained_B(np, phases[p].unit_cell, U[g], eps[g]) @ r[2:5]
        src = R @ (cen[g] - og) + og + tr * t
        v = coord[enod[g]]
        vol = abs(np.dot(np.cross(v[1] - v[0], v[2] - v[0]), v[3] - v[0])) / 6
        for name, a, b in (("G0", r[7:10], G0), ("G", r[10:13], R @ G0), ("K_out", r[13:16], k + R @ G0), ("source", r[16:19], src), ("volume", r[21:22], np.array([vol]))):
            c.ensure(name, bool(np.all(np.abs(a - b) < 1e-6 * (1 + np.max(np.abs(b))))))
        c.ensure("illuminated", bool(np.all(hs[:, :3] @ src + hs[:, 3] < 1e-9)))
        if sfs:
            s = sfs[p].get(tuple(int(x) for x in r[2:5]))
            c.ensure("structure factor of the plane", s is not None and abs(r[5] - (s[0] ** 2 + s[1] ** 2)) < 1e-8 * (1 + r[5]))
            c.ensure("no extinct plane", r[5] > 1e-6)
        else:
            c.ensure("unit structure factor", r[5] == 1)
    # the events of the unfiltered table that are clearly lit are all there
    full = np_(pc._compute_peaks(beam, rbm))
    depth = np.max(full[:, 16:19] @ hs[:, :3].T + hs[:, 3], axis=1) if len(full) else np.zeros(0)
    c.ensure("lit events kept", int(np.sum(depth < -1e-9)) <= len(pk) <= int(np.sum(depth < 1e-9)))
    c.ensure("every phase is searched", set(int(x) for x in full[:, 1]) <= set(pm.tolist()))
    if not sfs:
        # a crystal's events do not depend on the company of other crystals
        g = rng.randrange(len(pm))
        one = c.mod("mesh").TetraMesh.generate_mesh_from_vertices(coord[enod[g]], np.array([[0, 1, 2, 3]]))
        alone = c.mod("polycrystal").Polycrystal(one, U[g], eps[g], c.mod("phase").Phase(phases[pm[g]].unit_cell, phases[pm[g]].sgname))
        b = np_(alone.diffract(beam, rbm, max_bragg_angle=th, verbose=False)["peaks"])
        a = pk[pk[:, 0] == g]
        from contracts.c07_transform import rows_match
        cols = [2, 3, 4, 5, 6, 7, 8, 9, 13, 14, 15, 16, 17, 18, 20, 21, 22]
        rows_match(c, "events of the crystal alone", a[:, cols], b[:, cols], cols)
