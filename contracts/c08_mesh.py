"""C08  geometry of the tetrahedral mesh."""
import math
from engine.api import case
from contracts._scene import *

MM = "mesh.TetraMesh."


def tet_input(c, name="coord", lo=-3, hi=3):
    """a mesh of E tetrahedra over NN nodes"""
    E, NN = c.dim("E", 1), c.dim("NN", 4)
    coord = c.ten(name, (NN, 3), near=(lo, hi))
    enod = c.ten("enod", (E, 4), 0, NN - 1, dtype="int")
    return E, NN, coord, enod


def vert(c, coord, enod, e, a):
    n = c.at(enod, e, a)
    return [c.at(coord, n, q) for q in range(3)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def new_mesh(c):
    return object.__new__(c.mod("mesh").TetraMesh)


@case("C08", [MM + "_compute_mesh_volumes", "utils._compute_tetrahedra_volumes"], samples=40)
def volumes(c):
    """element volume = |(b-a) . (c-a) x (d-a)| / 6, whatever the node order; both volume routines agree"""
    E, NN, coord, enod = tet_input(c)
    snap = c.snapshot(coord)
    v = new_mesh(c)._compute_mesh_volumes(enod, coord)
    w = c.mod("utils")._compute_tetrahedra_volumes(coord[enod])
    c.same_shape("shape", v, (E,))
    c.same_shape("shape of the polycrystal volumes", w, (E,))
    for e in c.each(E, name="e"):
        a, b, d, g = [vert(c, coord, enod, e, k) for k in range(4)]
        t = dot(cross(sub(b, a), sub(d, a)), sub(g, a))
        c.same("volume", c.at(v, e) * 6, c.abs(t), tol=1e-9)
        c.same("volume of the crystal", c.at(w, e) * 6, c.abs(t), tol=1e-9)
        c.ensure("not negative", c.and_(c.le(0, c.at(v, e)), c.le(0, c.at(w, e))))
    c.unchanged("frame", coord, snap)


@case("C08", [MM + "_compute_mesh_centroids"], samples=30)
def centroids(c):
    """element centroid = mean of its four nodes"""
    E, NN, coord, enod = tet_input(c)
    m = new_mesh(c)._compute_mesh_centroids(coord, enod)
    c.same_t("centroid", m, (E, 3), lambda e, q: sum(c.at(coord, c.at(enod, e, k), q) for k in range(4)) / 4)


FACES = [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)]


@case("C08", [MM + "_compute_mesh_faces"], samples=30)
def faces(c):
    """the four faces of an element are its four node triples"""
    E, NN, coord, enod = tet_input(c)
    f = new_mesh(c)._compute_mesh_faces(enod)
    c.same_shape("shape", f, (E, 4, 3))
    for e in c.each(E, name="e"):
        for k, tri in enumerate(FACES):
            for j in range(3):
                c.ensure("face[%d]" % k, c.eq(c.at(f, e, k, j), c.at(enod, e, tri[j])))


@case("C08", [MM + "_compute_mesh_normals", MM + "_compute_mesh_faces"], samples=40, budget=40)
def normals(c):
    """the normals of a non-degenerate element are unit vectors, perpendicular to their face, pointing away from the opposite node"""
    n = c.dim("E", 1)
    # every element has its own nodes in the concrete runs, arbitrary shared nodes in the proof
    if c.sym:
        E, NN, coord, enod = tet_input(c)
    else:
        E = n
        coord = c.ten("coord", (4 * E, 3), near=(-3, 3))
        enod = c.np.array([[4 * e + k for k in range(4)] for e in range(E)])
    mesh = new_mesh(c)
    fc = mesh._compute_mesh_faces(enod)
    c.assume(c.forall(E, lambda e: c.not_(c.eq(det6(c, coord, enod, e), 0)) if c.sym else abs(det6(c, coord, enod, e)) > 1e-3))
    nv = mesh._compute_mesh_normals(coord, enod, fc)
    c.same_shape("shape", nv, (E, 4, 3))
    for e in c.each(E, name="e"):
        p = [vert(c, coord, enod, e, k) for k in range(4)]
        D = det6(c, coord, enod, e)
        for k in [c.pick("face", [0, 1, 2, 3])]:
            tri = FACES[k]
            a, b, d = [p[j] for j in tri]
            opp = p[[j for j in range(4) if j not in tri][0]]
            w = [c.at(nv, e, k, q) for q in range(3)]
            ab, ad = sub(b, a), sub(d, a)
            cr = cross(ab, ad)
            if c.sym:
                c.cut("non-degenerate face", [D, dot(cr, cr)] + cr + sub(opp, a),
                      [lambda D, N, x, y, z, u, v, t, s=(1 if k in (0, 2) else -1): c.or_(c.eq(D, x * u + y * v + z * t), c.eq(D, -(x * u + y * v + z * t))),
                       lambda D, N, x, y, z, *r: c.eq(N, x * x + y * y + z * z), lambda D, *r: c.not_(c.eq(D, 0))],
                      lambda D, N, *r: c.lt(0, N))
            if c.sym:
                c.lemma("norm", c.not_(c.eq(c.sqrt(dot(cr, cr)), 0)))
            c.same("perpendicular[%d]" % k, dot(w, ab), 0.0, tol=1e-9)
            c.same("perpendicular'[%d]" % k, dot(w, ad), 0.0, tol=1e-9)
            N = dot(cr, cr)
            c.cut("unit[%d]" % k, w + cr + [N],
                  [lambda a, b, d, x, y, z, N: c.lt(0, N), lambda a, b, d, x, y, z, N: c.eq(N, x * x + y * y + z * z)]
                  + [lambda *r, q=q: c.eq(r[q] * r[q] * r[6], r[3 + q] * r[3 + q]) for q in range(3)],
                  lambda a, b, d, x, y, z, N: c.eq(a * a + b * b + d * d, 1))
            fc = [[sum(p[j][q] for j in f) / 3 for q in range(3)] for f in FACES]
            t = dot(sub(fc[k], [sum(f[q] for f in fc) / 4 for q in range(3)]), cr)
            c.cut("outward[%d]" % k, [dot(w, sub(opp, a)), c.sqrt(N), dot(cr, sub(opp, a)), t],
                  [lambda x, n, T, t: c.lt(0, n), lambda x, n, T, t: c.not_(c.eq(T, 0)), lambda x, n, T, t: c.eq(T, -4 * t),
                   lambda x, n, T, t: c.eq(x * n, T * c.ite(c.le(0, t), 1, -1))], lambda x, n, T, t: c.lt(x, 0))


def det6(c, coord, enod, e):
    a, b, d, g = [vert(c, coord, enod, e, k) for k in range(4)]
    return dot(cross(sub(b, a), sub(d, a)), sub(g, a))


@case("C08", ["utils._compute_sides"], samples=30)
def sides(c):
    """the six side lengths, in the order 01 02 03 12 13 23"""
    n = c.dim("n", 0)
    p = c.ten("p", (n, 4, 3), near=(-3, 3))
    s = c.mod("utils")._compute_sides(p)
    c.same_shape("shape", s, (n, 6))
    for i in c.each(n, name="i"):
        for k, (a, b) in enumerate([(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]):
            d = [c.at(p, i, a, q) - c.at(p, i, b, q) for q in range(3)]
            c.same("side[%d]" % k, c.at(s, i, k), c.sqrt(dot(d, d)))


def sphere_case(kind):
    K = {"segments": 2, "triangles": 3, "tetrahedrons": 4}[kind]

    def f(c):
        n = c.dim("n", 0)
        if kind == "segments":
            pre = None
        elif kind == "triangles":
            def pre(x, i, *r):
                p = [[x(i, k, q) for q in range(3)] for k in range(3)]
                cr = cross(sub(p[1], p[0]), sub(p[2], p[0]))
                return c.lt(0 if c.sym else 1e-2, dot(cr, cr))
        else:
            def pre(x, i, *r):
                p = [[x(i, k, q) for q in range(3)] for k in range(4)]
                d = dot(cross(sub(p[1], p[0]), sub(p[2], p[0])), sub(p[3], p[0]))
                return c.or_(c.lt(0 if c.sym else 0.05, d), c.lt(d, 0 if c.sym else -0.05))
        s = c.ten("p", (n, K, 3), near=(-3, 3), where=pre)
        snap = c.snapshot(s)
        ctr, rad = getattr(c.mod("utils"), "_circumsphere_of_" + kind)(s)
        c.same_shape("centre shape", ctr, (n, 3))
        c.same_shape("radius shape", rad, (n,))
        for i in c.each(n, name="i"):
            o = [c.at(ctr, i, q) for q in range(3)]
            p = [[c.at(s, i, k, q) for q in range(3)] for k in range(K)]
            r = c.at(rad, i) / 1.0001
            d0 = sub(p[0], o)
            c.same("through node[0]", dot(d0, d0), r * r, tol=1e-6)
            for k in range(1, K):
                # |p_k - o| = |p_0 - o|: the two sides of the linear equation of the bisector plane
                c.cut("through node[%d]" % k, o + p[0] + p[k],
                      [lambda x, y, z, a, b, d, e, f, g: c.eq(2 * (x * (e - a) + y * (f - b) + z * (g - d)), e * e + f * f + g * g - a * a - b * b - d * d)],
                      lambda x, y, z, a, b, d, e, f, g: c.eq((e - x) * (e - x) + (f - y) * (f - y) + (g - z) * (g - z),
                                                             (a - x) * (a - x) + (b - y) * (b - y) + (d - z) * (d - z)))
            c.ensure("radius", c.le(0, r))
            if K == 3:
                c.same("in the plane", dot(sub(o, p[0]), cross(sub(p[1], p[0]), sub(p[2], p[0]))), 0.0, tol=1e-6)
            if K == 2:
                for q in range(3):
                    c.same("midpoint", 2 * o[q], p[0][q] + p[1][q])
        c.unchanged("frame", s, snap)
    return f


for _k in ("segments", "triangles", "tetrahedrons"):
    case("C08", ["utils._circumsphere_of_" + _k], name="circumsphere_of_" + _k, samples=40, budget=40)(sphere_case(_k))


def brute_spheres(np, v):
    """(half longest side, smallest of all enclosing spheres through 2, 3 or 4 of the nodes, circumradius)"""
    best = math.inf
    rads = []
    from itertools import combinations
    longest = max(np.linalg.norm(v[a] - v[b]) for a, b in combinations(range(4), 2)) / 2
    for k in (2, 3, 4):
        for sub_ in combinations(range(4), k):
            p = v[list(sub_)]
            A = 2 * (p[1:] - p[0])
            rhs = np.sum(p[1:] ** 2, axis=1) - np.sum(p[0] ** 2) - A @ p[0]
            x = p[0] + np.linalg.lstsq(A, rhs, rcond=None)[0]
            r = np.linalg.norm(p[0] - x)
            if k == 4:
                rads.append(r)
            if np.all(np.linalg.norm(v - x, axis=1) <= r * (1 + 1e-9)):
                best = min(best, r)
    return longest, best, rads[0]


@case("C08", [MM + "_compute_mesh_spheres", MM + "_build_tetramesh", MM + "_expand_mesh_data", MM + "_set_fem_matrices", MM + "generate_mesh_from_vertices"],
      sym=False, samples=80, bounded="random and special (regular, flat, needle, right-angled, a vertex close to the sphere over the longest side) tetrahedra, meshes of 1-5 elements")
def built_mesh(c):
    """a mesh built from vertices: nodes and connectivity as given, per-element quantities belong to their element, the spheres
    enclose the element and are no larger than its circumsphere, the mesh centroid is the mean of the element centroids"""
    np, rng = c.np, c.rng
    n = rng.randint(1, 5)
    shared = rng.random() < 0.4
    coord, enod = [], []
    if shared:
        coord = np.array([[rng.uniform(-3, 3) for _ in range(3)] for _ in range(n + 4)])
        for e in range(n):
            while True:
                t = rng.sample(range(n + 4), 4)
                v = coord[t]
                if abs(np.linalg.det(v[1:] - v[0])) > 0.3:
                    break
            enod.append(t)
    else:
        for e in range(n):
            kind = rng.choice(["random", "regular", "flat", "needle", "corner", "bigface", "rim", "rim"])
            while True:
                if kind == "random":
                    v = np.array([[rng.uniform(-3, 3) for _ in range(3)] for _ in range(4)])
                elif kind == "regular":
                    v = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1.0]]) * rng.uniform(0.5, 2)
                elif kind == "flat":
                    v = np.array([[rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(-.3, .3)] for _ in range(4)])
                elif kind == "needle":
                    v = np.array([[rng.uniform(-4, 4), rng.uniform(-.4, .4), rng.uniform(-.4, .4)] for _ in range(4)])
                elif kind == "rim":
                    # the third vertex on, just outside of or just inside the sphere over the longest side; the fourth so to the circle of the other three or anywhere inside
                    f = lambda: 1 + rng.choice([-1, 1, 0]) * 10 ** rng.uniform(-6, -1.5)
                    t_, u_ = rng.uniform(1.2, 1.9), rng.uniform(0, 2 * math.pi)
                    v = np.array([[-1, 0, 0], [1, 0, 0], f() * np.array([math.cos(t_), math.sin(t_), 0]),
                                  rng.choice([f(), rng.uniform(0.3, 0.9)]) * np.array([0.2 * math.cos(u_), math.sin(u_), 0.9 * math.cos(u_)])]) * rng.uniform(0.5, 2)
                elif kind == "bigface":
                    v = np.array([[0, 0, 0], [2, 0, 0], [1, 1.7, 0], [1 + rng.uniform(-.3, .3), 0.6, rng.uniform(0.2, 0.6)]])
                else:
                    v = np.array([[0, 0, 0], [rng.uniform(1, 2), 0, 0], [0, rng.uniform(1, 2), 0], [0, 0, rng.uniform(1, 2)]])
                v = v @ euler_rot(np, rng).T + np.array([rng.uniform(-5, 5) for _ in range(3)])
                v = v[rng.sample(range(4), 4)]
                if abs(np.linalg.det(v[1:] - v[0])) > 0.05:
                    break
            enod.append([4 * e + k for k in range(4)])
            coord.extend(v.tolist())
    coord, enod = np.array(coord), np.array(enod)
    c.inputs.update(coord=coord.tolist(), enod=enod.tolist())
    c0, e0 = coord.copy(), enod.copy()
    m = c.mod("mesh").TetraMesh.generate_mesh_from_vertices(coord, enod)
    check_mesh(c, m, c0, e0)
    c.ensure("input kept", np.array_equal(coord, c0) and np.array_equal(enod, e0))


def check_mesh(c, m, coord, enod, spheres=True):
    np = c.np
    n = len(enod)
    g = {x: np_(getattr(m, x)) for x in ("coord", "enod", "efaces", "enormals", "ecentroids", "eradius", "espherecentroids", "evolumes", "centroid")}
    c.ensure("number of elements", int(m.number_of_elements) == n)
    c.ensure("nodes", g["coord"].shape == coord.shape and np.allclose(g["coord"], coord, rtol=1e-10, atol=1e-9))
    c.ensure("connectivity", np.array_equal(g["enod"].astype(int), enod))
    c.ensure("shapes", g["eradius"].shape == (n,) and g["espherecentroids"].shape == (n, 3) and g["evolumes"].shape == (n,) and g["enormals"].shape == (n, 4, 3)
             and g["ecentroids"].shape == (n, 3) and g["centroid"].shape == (3,) and g["efaces"].shape == (n, 4, 3))
    c.ensure("centroid", np.allclose(g["centroid"], coord[enod].mean(axis=(0, 1)), atol=1e-8))
    for e in range(n):
        v = coord[enod[e]]
        vol = abs(np.linalg.det(v[1:] - v[0])) / 6
        c.same("volume", float(g["evolumes"][e]), vol, tol=1e-8)
        c.ensure("element centroid", np.allclose(g["ecentroids"][e], v.mean(axis=0), atol=1e-8))
        longest, best, circ = brute_spheres(np, v)
        r, o = float(g["eradius"][e]), g["espherecentroids"][e]
        d = np.linalg.norm(v - o, axis=1)
        c.ensure("sphere encloses its element", np.all(d <= r * (1 + 1e-9)))
        c.ensure("sphere no larger than the circumsphere", r <= circ * 1.0002)
        c.ensure("sphere of the longest side when that encloses", best > longest * (1 + 1e-9) or r <= longest * 1.0002)
        c.ensure("sphere touches its element", np.sort(d)[-2] >= r / 1.0002)
        seen = set()
        for k in range(4):
            f = g["efaces"][e, k].astype(int).tolist()
            seen.add(tuple(sorted(f)))
            w = g["enormals"][e, k]
            opp = [x for x in enod[e] if x not in f]
            a, b, q = coord[f[0]], coord[f[1]], coord[f[2]]
            c.ensure("face of its element", len(opp) == 1)
            if len(opp) == 1:
                c.ensure("outward unit normal", abs(w @ w - 1) < 1e-9 and abs(w @ (b - a)) < 1e-7 and abs(w @ (q - a)) < 1e-7 and w @ (coord[opp[0]] - a) < 0)
        c.ensure("four faces", len(seen) == 4)


@case("C08", [MM + "generate_mesh_from_levelset"], sym=False, samples=4, bounded="balls and ellipsoids of three sizes")
def levelset_mesh(c):
    """the mesh of a level set fills the body: nodes inside or near its surface, elements not overlapping more than its volume"""
    np, rng = c.np, c.rng
    r = rng.uniform(1, 50)
    ax = np.array([rng.uniform(0.6, 1) for _ in range(3)])
    h = r * rng.uniform(0.2, 0.5)
    m = c.mod("mesh").TetraMesh.generate_mesh_from_levelset(lambda x: np.linalg.norm(np.asarray(x) / ax) - r, bounding_radius=1.2 * r, max_cell_circumradius=h)
    coord, enod = np_(m.coord), np_(m.enod).astype(int)
    c.inputs.update(r=r, ax=ax.tolist(), h=h)
    lev = np.linalg.norm(coord / ax, axis=1) - r
    c.ensure("nodes in the body", np.all(lev < 0.25 * r))
    vol = float(np_(m.evolumes).sum())
    ref = 4 / 3 * math.pi * r ** 3 * ax.prod()
    c.ensure("fills the body", 0.7 * ref < vol < 1.1 * ref)
    c.ensure("connectivity", enod.min() >= 0 and enod.max() < len(coord) and enod.shape == (m.number_of_elements, 4))
    c.ensure("all of positive volume", bool(np.all(np_(m.evolumes) > 0)))
    c.ensure("centred", np.linalg.norm(np_(m.evolumes) @ np_(m.ecentroids) / vol) < 0.1 * r)


@case("C08", [MM + "_compute_mesh_spheres"], samples=20)
def enclosing_spheres(c):
    """callee contracts (circumsphere_of_*) in, enclosure out: the chosen sphere contains all four vertices of its element"""
    E = 1 if c.sym else c.rng.choice([1, 2, 5])
    coord = c.ten("coord", (4 * E, 3), near=(-3, 3))
    enod = c.np.array([[4 * e + k for k in range(4)] for e in range(E)])
    if not c.sym:
        c.assume(all(abs(det6(c, coord, enod, e)) > 1e-3 for e in range(E)))
    else:
        u = c.mod("utils")

        def through(name, K):
            def f(s):
                c.same_shape(name + " input", s, (E, K, 3))
                ctr, rad = c.ten("centre" + name, (E, 3)), c.ten("radius" + name, (E,), 0, None)
                for e in range(E):
                    for k in range(K):
                        d = [c.at(s, e, k, q) - c.at(ctr, e, q) for q in range(3)]
                        c.assume(c.le(c.sqrt(dot(d, d)), c.at(rad, e)))
                return ctr, rad
            return f
        for name, K in (("segments", 2), ("triangles", 3), ("tetrahedrons", 4)):
            setattr(u, "_circumsphere_of_" + name, through(name, K))
        # which side is taken for the longest does not matter here
        u._compute_sides = lambda v: c.ten("sides", (E, 6))
        c.fork_arg()
    r, o = new_mesh(c)._compute_mesh_spheres(coord, enod)
    c.same_shape("radii", r, (E,))
    c.same_shape("centres", o, (E, 3))
    for e in range(E):
        for k in range(4):
            d = [c.at(coord, 4 * e + k, q) - c.at(o, e, q) for q in range(3)]
            c.ensure("encloses", c.le(c.sqrt(dot(d, d)), c.at(r, e)) if c.sym else dot(d, d) <= c.at(r, e) ** 2 * (1 + 1e-9))
