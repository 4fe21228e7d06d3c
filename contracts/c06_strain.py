"""C06  strain <-> reciprocal lattice."""
import math
from engine.api import case
from contracts._scene import *

E2B, B2E, LAB = "utils._epsilon_to_b", "utils._b_to_epsilon", "utils._lab_strain_to_B_matrix"


def minors(c, m):
    """leading principal minors of the symmetric matrix 2m+1"""
    C = [[2 * m(i, j) + (1 if i == j else 0) for j in range(3)] for i in range(3)]
    return [C[0][0], C[0][0] * C[1][1] - C[0][1] * C[1][0],
            C[0][0] * (C[1][1] * C[2][2] - C[1][2] * C[2][1]) - C[0][1] * (C[1][0] * C[2][2] - C[1][2] * C[2][0])
            + C[0][2] * (C[1][0] * C[2][1] - C[1][1] * C[2][0])]


def symmetric(c, name, batch, lo=-0.45, hi=0.45):
    """batch of symmetric tensors -> (tensor, accessor)"""
    v = c.ten(name, tuple(batch) + (6,), near=(lo, hi))
    pos = {(0, 0): 0, (0, 1): 1, (0, 2): 2, (1, 1): 3, (1, 2): 4, (2, 2): 5}

    def at(*idx):
        i, j = idx[-2], idx[-1]
        if c.sym and not (isinstance(i, int) and isinstance(j, int)):
            r = None
            for p in range(3):
                for q in range(3):
                    x = c.at(v, *(idx[:-2] + (pos[(min(p, q), max(p, q))],)))
                    r = x if r is None else c.ite(c.and_(c.eq(i, p), c.eq(j, q)), x, r)
            return r
        return c.at(v, *(idx[:-2] + (pos[(min(i, j), max(i, j))],)))
    return c.fnten(at, tuple(batch) + (3, 3)), at


def upper(c, name):
    d = c.ten(name, (6,), near=(0.2, 3.0), where=lambda x, k: c.and_(*[c.lt(0, x(q)) for q in range(3)]))
    pos = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (0, 1): 3, (0, 2): 4, (1, 2): 5}
    z = 0.0

    def at(i, j):
        if c.sym and not (isinstance(i, int) and isinstance(j, int)):
            r = z
            for (p, q), k in pos.items():
                r = c.ite(c.and_(c.eq(i, p), c.eq(j, q)), c.at(d, k), r)
            return r
        return c.at(d, pos[(i, j)]) if (i, j) in pos else z
    return c.fnten(at, (3, 3)), at


@case("C06", [E2B], samples=60, budget=40)
def strained_metric(c):
    """the strained lattice B has B^T (2 eps + 1) B = B0^T B0 and is upper triangular; a strain is rejected with ValueError,
    and only then, when 2 eps + 1 is not positive definite (boundary excluded)"""
    single = c.pick("single", [True, False])
    n = 1 if single else c.dim("n", 1)
    eps, at = symmetric(c, "eps", () if single else (n,))
    b0, b0at = upper(c, "B0")
    el = (lambda i, p, q: at(p, q)) if single else at
    f = c.mod("utils")._epsilon_to_b
    feasible = c.forall(n, lambda i: c.and_(*[c.lt(0, m) for m in minors(c, lambda p, q: el(i, p, q))]))
    raised, B = c.attempt(lambda: f(eps, b0), ValueError, RuntimeError)
    if raised:
        c.ensure("rejects only infeasible strains", c.not_(feasible))
        return
    c.same_shape("shape", B, (3, 3) if single else (n, 3, 3))
    for i in c.each(n, name="i"):
        b = [[c.at(B, p, q) if single else c.at(B, i, p, q) for q in range(3)] for p in range(3)]
        C = [[2 * el(i, p, q) + (1 if p == q else 0) for q in range(3)] for p in range(3)]
        for m in minors(c, lambda p, q: el(i, p, q)):
            c.ensure("accepts only feasible strains", c.lt(0, m))
        for p in range(3):
            for q in range(p):
                c.same("upper[%d%d]" % (p, q), b[p][q], 0.0)
            c.ensure("orientation kept", c.lt(0, b[p][p]))
            for q in range(p, 3):
                l = sum(b[r][p] * C[r][s] * b[s][q] for r in range(3) for s in range(3))
                c.same("metric[%d%d]" % (p, q), l, sum(b0at(r, p) * b0at(r, q) for r in range(3)))


@case("C06", [E2B, B2E], samples=40, budget=40)
def round_trip(c):
    """the strain recovered from a strained lattice is the strain it was made from"""
    eps, at = symmetric(c, "eps", ())
    for m in minors(c, at):
        c.assume(c.lt(1e-3, m))
    b0, b0at = upper(c, "B0")
    u = c.mod("utils")
    B = u._epsilon_to_b(eps, b0)
    back = u._b_to_epsilon(B, b0)
    c.ensure("six components", len(back) == 6)
    k = 0
    for i in range(3):
        for j in range(i, 3):
            c.same("strain[%d%d]" % (i, j), c.at(back[k]) if hasattr(back[k], "shape") else back[k], at(i, j), tol=1e-7)
            k += 1


@case("C06", [LAB], samples=40, budget=60)
def lab_frame(c):
    """a strain given in the lab frame strains every crystal by that tensor: for the lattice U B of the crystal in the lab,
    (UB)^T (2 eps + 1) (UB) = B0^T B0, for each element of the batch (callee _epsilon_to_b by its contract)"""
    single = c.pick("single", [True, False])
    n = 1 if single else c.dim("n", 0)
    eps, at = symmetric(c, "eps", () if single else (n,), -0.1, 0.1)
    U = c.rot("U", () if single else (n,))
    el = (lambda i, p, q: at(p, q)) if single else at
    u = (lambda i, p, q: c.at(U, p, q)) if single else (lambda i, p, q: c.at(U, i, p, q))
    b0, b0at = upper(c, "B0")
    mod = c.mod("utils")
    got = []
    if c.sym:
        def contract(strain, B0):
            r = c.ten("B", tuple(c.shape(strain)))
            got.append((c.snapshot(strain), r, B0))
            return r
        mod._epsilon_to_b = contract
    B = mod._lab_strain_to_B_matrix(eps, U, b0)
    sq = len(c.shape(B)) == 2
    if sq:
        c.ensure("one lattice", c.eq(n, 1))
        c.same_shape("shape", B, (3, 3))
    else:
        c.same_shape("shape", B, (n, 3, 3))
    if c.sym:
        c.ensure("one call", len(got) == 1)
        arg, ret, ref = got[0]
        c.same_t("reference lattice", ref, (3, 3), lambda p, q: b0at(p, q))
        c.same_shape("batch", arg, (n, 3, 3))
    for i in c.each(n, name="i"):
        b = [[c.at(B, p, q) if sq else c.at(B, i, p, q) for q in range(3)] for p in range(3)]
        ub = [[sum(u(i, p, r) * b[r][q] for r in range(3)) for q in range(3)] for p in range(3)]
        C = [[2 * el(i, p, q) + (1 if p == q else 0) for q in range(3)] for p in range(3)]
        for p in range(3):
            for q in range(3):
                if c.sym:
                    c.same("result[%d%d]" % (p, q), b[p][q], c.at(ret, i, p, q))
            for q in range(p, 3):
                l = sum(ub[r][p] * C[r][s] * ub[s][q] for r in range(3) for s in range(3))
                if c.sym:
                    # what the contract of the callee equates to B0^T B0
                    k = sum(c.at(ret, i, r, p) * (2 * c.at(arg, i, r, s) + (1 if r == s else 0)) * c.at(ret, i, s, q) for r in range(3) for s in range(3))
                else:
                    k = sum(b0at(r, p) * b0at(r, q) for r in range(3))
                c.same("metric[%d%d]" % (p, q), l, k)


@case("C06", ["polycrystal.Polycrystal._instantiate_eB", "polycrystal.Polycrystal.__init__", LAB, E2B, B2E], sym=False, samples=40,
      bounded="random polycrystals of 1-4 crystals and 1-3 phases, strain up to 0.4")
def polycrystal_lattices(c):
    """every crystal of a polycrystal gets the lattice of its own phase, strained by its own strain; infeasible strain -> ValueError"""
    np = c.np
    n, nph = c.rng.randint(1, 5), c.rng.choice([1, 2, 3])
    mesh = tetra_mesh(c, n)
    phases = [c.mod("phase").Phase(*CELLS[c.rng.randrange(len(CELLS))]) for _ in range(nph)]
    U = np.array([euler_rot(np, c.rng) for _ in range(n)])
    amp = c.rng.choice([1e-3, 1e-2, 0.1, 0.35])
    eps = np.array([[[c.rng.uniform(-amp, amp) for _ in range(3)] for _ in range(3)] for _ in range(n)])
    eps = (eps + np.transpose(eps, (0, 2, 1))) / 2
    if c.rng.random() < 0.2:
        eps[c.rng.randrange(n)] = np.diag([0.0, 0.0, -c.rng.uniform(0.51, 2.0)])
    pm = np.array([c.rng.randrange(nph) for _ in range(n)])
    low = min(np.linalg.eigvalsh(2 * e + np.eye(3)).min() for e in eps)
    c.inputs.update(n=n, nph=nph, low=low, eps=eps.tolist(), pm=pm.tolist())
    if abs(low) < 1e-6:
        raise_skip()
    how = c.rng.choice(["full", "one-orientation", "no-map"])
    if how == "one-orientation":
        U[:] = U[0]
    if how == "no-map" and nph == 1:
        pm[:] = 0
    raised, pc = c.attempt(lambda: c.mod("polycrystal").Polycrystal(mesh, U[0] if how == "one-orientation" else U, eps, phases if nph > 1 else phases[0],
                           None if how == "no-map" and nph == 1 else pm), ValueError)
    c.ensure("infeasible strain rejected", raised == (low < 0))
    if raised:
        return
    for e in range(n):
        ref = strained_B(np, phases[pm[e]].unit_cell, U[e], eps[e])
        for p in range(3):
            for q in range(3):
                c.same("lattice", float(pc._eB[e, p, q]), ref[p, q], tol=1e-7)
        back = c.mod("utils")._b_to_epsilon(pc._eB[e], lattice_B(np, phases[pm[e]].unit_cell))
        ec = U[e].T @ eps[e] @ U[e]
        k = 0
        for i in range(3):
            for j in range(i, 3):
                c.same("recovered strain", float(back[k]), ec[i, j], tol=1e-7)
                k += 1


def raise_skip():
    from engine.api import Skip
    raise Skip()


@case("C06", ["polycrystal.Polycrystal.__init__", "polycrystal.Polycrystal._instantiate_orientation", "polycrystal.Polycrystal._instantiate_strain",
              "polycrystal.Polycrystal._instantiate_phase", "polycrystal.Polycrystal._instantiate_eB", "polycrystal.Polycrystal._move_mesh_to_torch"], samples=60)
def own_lattice(c):
    """one orientation or strain is that of every crystal, as many as crystals are theirs in order; each crystal has the phase of the map (the only phase without
    a map) and the lattice of its own orientation, strain and phase; other sizes, and several phases without a map, are refused (callee _lab_strain_to_B_matrix by its contract)"""
    pm_, ut = c.mod("polycrystal"), c.mod("utils")
    N = c.dim("N", 1)
    nph = c.pick("phases", [1, 2, 3])
    how = c.pick("orientation", ["one", "each", "other"])
    hos = c.pick("strain", ["one", "each"])
    mapped = bool(c.bool("map")) or how == "other"
    lib = ("np" if hos == "one" else "torch") if c.sym else c.pick("arrays", ["torch", "np"])
    NN = c.dim("NN", 4)
    mesh = object.__new__(c.mod("mesh").TetraMesh)
    mesh.number_of_elements = N
    mesh.coord = c.ten("coord", (NN, 3), near=(-5, 5), lib=lib)
    mesh.enod = c.ten("enod", (N, 4), 0, NN - 1, dtype="int", lib=lib)
    mesh.dof = c.ten("dof", (NN, 3), 0, 9, dtype="int", lib=lib)
    mesh.efaces = c.ten("efaces", (N, 4, 3), 0, NN - 1, dtype="int", lib=lib)
    mesh.enormals, mesh.ecentroids = c.ten("normals", (N, 4, 3), lib=lib), c.ten("centroids", (N, 3), lib=lib)
    mesh.eradius, mesh.espherecentroids, mesh.centroid = c.ten("radius", (N,), lib=lib), c.ten("sphere", (N, 3), lib=lib), c.ten("centroid", (3,), lib=lib)
    K = N if how != "other" else c.dim("K", 1)
    if how == "other":
        c.assume(c.not_(c.eq(K, N)))
    U = c.ten("U", (3, 3) if how == "one" else (K, 3, 3), lib=lib)
    eps = c.ten("eps", (3, 3) if hos == "one" else (N, 3, 3), lib=lib)
    u = (lambda e, a, b: c.at(U, a, b)) if how == "one" else (lambda e, a, b: c.at(U, e, a, b))
    s = (lambda e, a, b: c.at(eps, a, b)) if hos == "one" else (lambda e, a, b: c.at(eps, e, a, b))
    pmap = c.ten("pmap", (N,), 0, nph - 1, dtype="int", lib=lib)
    phases, B0 = [], []
    for i in range(nph):
        ph = object.__new__(c.mod("phase").Phase)
        ph.unit_cell = ["cell", i]
        phases.append(ph)
        B0.append(c.ten("B0_%d" % i, (3, 3), lib="np"))
    nine = [(a, b) for a in range(3) for b in range(3)]

    def lattice(e, o, b, p, q):
        t = 0
        for k, (x, y) in enumerate(nine):
            t = t + (3 * p + q + 2) * ((k + 1) * e(x, y) + (k + 11) * o(x, y) + (k + 23) * b(x, y))
        return t

    def contract(strain, orientation, b0):
        n = c.shape(strain)[0]
        c.same_shape("strains", strain, (n, 3, 3))
        c.same_shape("orientations", orientation, (n, 3, 3))
        x, y, z = (c.snapshot(t) for t in (strain, orientation, b0))
        return c.fnten(lambda i, p, q: lattice(lambda a, b: c.at(x, i, a, b), lambda a, b: c.at(y, i, a, b), lambda a, b: c.at(z, a, b), p, q), (n, 3, 3))
    keep, keep_b, keep_v = ut._lab_strain_to_B_matrix, pm_.tools.form_b_mat, ut._compute_tetrahedra_volumes
    ut._lab_strain_to_B_matrix = contract
    pm_.tools.form_b_mat = lambda cell: B0[cell[1]]
    vol = c.ten("volumes", (N,), 0, None, near=(0, 5))

    def volumes(v):
        for e in c.each(N, name="e"):
            for a in range(4):
                for q in range(3):
                    c.same("corners of the crystal", c.at(v, e, a, q), c.at(mesh.coord, c.at(mesh.enod, e, a), q))
        return vol
    ut._compute_tetrahedra_volumes = volumes
    try:
        raised, pc = c.attempt(lambda: pm_.Polycrystal(mesh, U, eps, phases if nph > 1 or c.bool("list") else phases[0], pmap if mapped else None), ValueError)
    finally:
        ut._lab_strain_to_B_matrix, pm_.tools.form_b_mat, ut._compute_tetrahedra_volumes = keep, keep_b, keep_v
    c.ensure("refused", raised == (how == "other" or (not mapped and nph > 1)))
    if raised:
        return
    own = (lambda e: c.at(pmap, e)) if mapped else (lambda e: 0)
    for nm, t, f in (("orientation", pc.orientation_lab, u), ("sample orientation", pc.orientation_sample, u), ("strain", pc.strain_lab, s), ("sample strain", pc.strain_sample, s)):
        c.same_t(nm, t, (N, 3, 3), f)
    c.same_t("phase", pc.element_phase_map, (N,), own)
    c.same_t("volume", pc.mesh_volumes, (N,), lambda e: c.at(vol, e))
    c.ensure("phases", list(pc.phases) == phases)
    c.same_shape("one lattice for every crystal", pc._eB, (N, 3, 3))
    for e in c.each(N, name="e"):
        for p in range(3):
            for q in range(3):
                want = 0
                for i in range(nph):
                    want = want + c.ite(c.eq(own(e), i), lattice(lambda a, b: s(e, a, b), lambda a, b: u(e, a, b), lambda a, b: c.at(B0[i], a, b), p, q), 0)
                c.same("lattice", c.at(pc._eB, e, p, q), want, tol=1e-6)
    for m in (pc.mesh_lab, pc.mesh_sample):
        c.same_t("nodes", m.coord, (NN, 3), lambda a, q: c.at(mesh.coord, a, q))
        c.same_t("elements", m.enod, (N, 4), lambda a, q: c.at(mesh.enod, a, q))
    c.ensure("separate frames", pc.mesh_lab is not pc.mesh_sample and pc.mesh_lab is not mesh and pc.mesh_sample is not mesh)
