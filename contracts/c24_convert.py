"""C24  conversions: strain vectors, rotation parameters, array types, misorientations, hull samples, spheres through points."""
import math
import types
from engine.api import case, Skip
from contracts._scene import *

U = "utils."


@case("C24", [U + "_strain_as_vector", U + "_strain_as_tensor"], samples=60, budget=10)
def strain_roundtrip(c):
    """vector (e11, e12, e13, e22, e23, e33) <-> symmetric tensor, both ways"""
    u = c.mod("utils")
    names = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]
    v = c.ten("v", (6,), None if c.sym else -2, None if c.sym else 2, lib="np")
    lib = c.pick("container", ["np", "torch", "list"])
    x = c.const([0.0] * 6) if False else (v if lib == "np" else ([c.at(v, k) for k in range(6)] if lib == "list" else c.fnten(lambda k: c.at(v, k), (6,))))
    t = u._strain_as_tensor(x)
    c.same_shape("tensor", t, (3, 3))
    for k, (i, j) in enumerate(names):
        c.same("component", c.at(t, i, j), c.at(v, k))
        c.same("symmetric", c.at(t, j, i), c.at(v, k))
    back = u._strain_as_vector(t)
    c.ensure("length", len(back) == 6)
    for k in range(6):
        c.same("round trip", back[k], c.at(v, k))
    e = c.ten("e", (3, 3), None if c.sym else -2, None if c.sym else 2, lib=c.pick("tensor container", ["np", "torch"]))
    sym = c.fnten(lambda i, j: c.ite(c.le(i, j), c.at(e, i, j), c.at(e, j, i)), (3, 3), lib="np") if False else e
    w = u._strain_as_vector(sym)
    c.ensure("length", len(w) == 6)
    for k, (i, j) in enumerate(names):
        c.same("upper triangle", c.at(w[k]) if hasattr(w[k], "shape") else w[k], c.at(e, i, j))


@case("C24", [U + "_alpha_to_quarternion"], samples=60, budget=10)
def quaternions(c):
    """angles on the 3-sphere give unit quaternions, the polar angles being the angles to the first and last axis"""
    n = c.dim("N", 0)
    scalar = c.pick("scalar", [False, True])
    sh = () if scalar else (n,)
    a = [c.ten("a%d" % k, sh, None if c.sym else -7, None if c.sym else 7, lib="np") for k in range(3)]
    args = [c.at(x) for x in a] if scalar else a
    q = c.mod("utils")._alpha_to_quarternion(*args)
    c.same_shape("shape", q, sh + (4,))
    for i in ([()] if scalar else [(i,) for i in c.each(n, name="i")]):
        w = [c.at(q, *i, k) for k in range(4)]
        s = [c.at(x, *i) for x in a]
        c.same("unit", w[0] * w[0] + w[1] * w[1] + w[2] * w[2] + w[3] * w[3], 1)
        c.same("first", w[0], c.cos(s[0]))
        c.same("last", w[3], c.sin(s[0]) * c.cos(s[1]))
        c.same("second", w[1], c.sin(s[0]) * c.sin(s[1]) * c.cos(s[2]))
        c.same("third", w[2], c.sin(s[0]) * c.sin(s[1]) * c.sin(s[2]))


@case("C24", [U + "ensure_torch", U + "ensure_numpy"], samples=120, budget=15)
def containers(c):
    """tensors, arrays and (nested) lists become float64 tensors / arrays with the same shape and values; the original is kept"""
    u = c.mod("utils")
    kind = c.pick("values", ["float", "int"])
    rank = c.pick("rank", [1, 2])
    m = c.dim("M", 0)
    box = c.pick("container", ["np", "torch", "list"])
    sh = ((3,) if rank == 1 else (2, 3)) if box == "list" else ((m,) if rank == 1 else (m, 3))
    lim = (-9, 9)
    src = c.ten("x", sh, None if c.sym else -9, None if c.sym else 9, lib="np" if box == "list" else box, dtype=kind)
    x = src
    if box == "list":
        row = lambda r: [c.at(src, *r, k) for k in range(3)]
        x = row(()) if rank == 1 else [row((0,)), row((1,))]
        if c.pick("tuple", [False, True]):
            x = tuple(x)
    old = c.snapshot(src)
    want = c.pick("to", ["torch", "numpy"])
    y = u.ensure_torch(x) if want == "torch" else u.ensure_numpy(x)
    c.ensure("type", c.torch.is_tensor(y) == (want == "torch"))
    c.ensure("float64", y.dtype == (c.torch.float64 if want == "torch" else c.np.float64))
    c.same_shape("shape", y, sh)
    c.unchanged("source", src, old)
    rows = range(sh[0]) if box == "list" else c.each(sh[0], name="i")
    if rank == 1:
        for i in rows:
            c.same("value", c.at(y, i), c.at(old, i) * 1)
    else:
        for i in rows:
            for j in range(3):
                c.same("value", c.at(y, i, j), c.at(old, i, j) * 1)


@case("C24", [U + "_get_misorientations"], samples=40, budget=20)
def misorientations(c):
    """the rotation angle in [0, pi] between each orientation and the mean orientation of all, in order"""
    n = c.dim("N", 1)
    lib = c.pick("container", ["np", "torch"])
    o = c.rot("O", (n,), lib=lib)
    old = c.snapshot(o)
    if not c.sym:
        np = c.np
        s = np_(o).sum(axis=0)
        a, sv, b = np.linalg.svd(s)
        if sv[2] < 0.05 * sv[0]:
            raise Skip()            # no unique mean orientation
        d = np.sign(np.linalg.det(a @ b))
        if d < 0 and sv[1] - sv[2] < 0.05 * sv[0]:
            raise Skip()
        mean = a @ np.diag([1, 1, d]) @ b
    m = c.mod("utils")._get_misorientations(o)
    if c.sym:
        from engine.core import CTX
        ev = [e for e in CTX.events if e[0] == "rotmean"]
        c.ensure("one mean orientation", len(ev) == 1)
        c.same_shape("mean of all orientations", ev[0][1], (n, 3, 3))
        for i in c.each(n, name="i"):
            for p in range(3):
                for q in range(3):
                    c.same("mean of all orientations", c.at(ev[0][1], i, p, q), c.at(old, i, p, q))
        mean = ev[0][2]
    c.same_shape("shape", m, (n,))
    c.unchanged("orientations", o, old)
    for i in c.each(n, name="i"):
        tr = sum(c.at(old, i, p, q) * c.at(mean, p, q) for p in range(3) for q in range(3))
        a = c.at(m, i)
        c.ensure("between 0 and pi", c.and_(c.le(0, a), c.le(a, c.pi)))
        if c.sym:
            c.same("angle", a, c.angle_with_cos((tr - 1) / 2))
        else:
            c.same("angle", math.cos(a), (tr - 1) / 2, tol=1e-6)


@case("C24", [U + "_get_circumscribed_sphere_centroid"], samples=80, budget=10)
def equidistant(c):
    """the centre is equally far from all the given points and lies in the space they span"""
    n = c.pick("points", [2, 3, 4])
    p = c.ten("p", (n, 3), None if c.sym else -3, None if c.sym else 3, lib="np")
    d = [[c.at(p, k, q) - c.at(p, 0, q) for q in range(3)] for k in range(1, n)]
    dot = lambda a, b: sum(a[q] * b[q] for q in range(3))
    g = [[dot(a, b) for b in d] for a in d]
    if n == 2:
        det = g[0][0]
    elif n == 3:
        det = g[0][0] * g[1][1] - g[0][1] * g[1][0]
    else:
        det = sum(g[0][i] * (g[1][(i + 1) % 3] * g[2][(i + 2) % 3] - g[1][(i + 2) % 3] * g[2][(i + 1) % 3]) for i in range(3))
    c.assume(c.lt(0.01 if not c.sym else 0, det))
    x = c.mod("utils")._get_circumscribed_sphere_centroid(p)
    c.same_shape("shape", x, (3,))
    e = [c.at(x, q) - c.at(p, 0, q) for q in range(3)]
    for k in range(n - 1):
        # |x - p_k|^2 = |x - p_0|^2
        c.same("equidistant", 2 * dot(e, d[k]), dot(d[k], d[k]), tol=1e-6)
    if n == 2:
        for q in range(3):
            c.same("midpoint", 2 * e[q], d[0][q], tol=1e-6)
    if n == 3:
        nrm = [d[0][1] * d[1][2] - d[0][2] * d[1][1], d[0][2] * d[1][0] - d[0][0] * d[1][2], d[0][0] * d[1][1] - d[0][1] * d[1][0]]
        c.same("in the plane of the points", dot(e, nrm), 0, tol=1e-6)


@case("C24", [U + "_contained_by_intervals"], samples=60, budget=5)
def intervals(c):
    """a value is contained exactly if it lies in one of the closed intervals"""
    n = c.pick("number", [0, 1, 2, 3])
    lo, hi = c.ten("lo", (3,), None if c.sym else 0, None if c.sym else 4, lib="np"), c.ten("hi", (3,), None if c.sym else 0, None if c.sym else 4, lib="np")
    v = c.real("v", None if c.sym else 0, None if c.sym else 4)
    r = c.mod("utils")._contained_by_intervals(v, [[c.at(lo, k), c.at(hi, k)] for k in range(n)])
    want = c.or_(*[c.and_(c.le(c.at(lo, k), v, tol=0), c.le(v, c.at(hi, k), tol=0)) for k in range(n)]) if n else (c.eq(0, 1))
    c.ensure("membership", c.iff(r, want))
