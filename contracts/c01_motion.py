"""C01  rigid body motion law."""
from engine.api import case

M = ["motion.RigidBodyMotion.__init__", "motion.RigidBodyMotion.__call__", "motion._RodriguezRotator.__init__",
     "motion._RodriguezRotator.__call__", "motion._RodriguezRotator.get_rotation_matrix"]


def spec_rot(c, k, ang, v):
    """Rodrigues: v cos a + (k x v) sin a + k (k.v)(1-cos a), as three scalars"""
    s, co = c.sin(ang), c.cos(ang)
    kv = k[0] * v[0] + k[1] * v[1] + k[2] * v[2]
    cr = [k[1] * v[2] - k[2] * v[1], k[2] * v[0] - k[0] * v[2], k[0] * v[1] - k[1] * v[0]]
    return [v[q] * co + cr[q] * s + k[q] * kv * (1 - co) for q in range(3)]


def vec(c, t, *i):
    return [c.at(t, *(i + (q,))) for q in range(3)]


def motion(c, prefix="", origin="vec"):
    k = c.unit(prefix + "axis")
    ang = c.real(prefix + "angle", 0, c.pi, open=True)
    tr = c.ten(prefix + "trans", (3,))
    mod = c.mod("motion")
    if origin == "default":
        og = c.const([0.0, 0.0, 0.0])
        m = mod.RigidBodyMotion(k, ang, tr)
    else:
        og = c.ten(prefix + "orig", (3,))
        m = mod.RigidBodyMotion(k, ang, tr, og)
    return m, vec(c, k), ang, vec(c, tr), vec(c, og)


def spec_motion(c, p, v, t):
    m, k, ang, tr, og = p
    r = spec_rot(c, k, ang * t, [v[q] - og[q] for q in range(3)])
    return [r[q] + og[q] + tr[q] * t for q in range(3)]


@case("C01", M)
def call_vector(c):
    """one point: rotation about the axis through the origin point by time times angle, plus time times translation"""
    p = motion(c, origin=c.pick("o", ["default", "vec"]))
    t = c.real("t", near=(0, 1))
    v = c.ten("v", (3,))
    snap = c.snapshot(v)
    out = p[0](v, t)
    c.same_t("law", out, (3,), lambda q: spec_motion(c, p, vec(c, v), t)[q])
    c.unchanged("frame", v, snap)


@case("C01", M)
def call_points(c):
    """a list of points, with one common or one individual time each: every point as on its own"""
    p = motion(c)
    n = c.dim("N", 1)
    v = c.ten("v", (n, 3))
    snap = c.snapshot(v)
    kind = c.pick("kind", ["float", "0d", "N"])
    if kind == "float":
        tt = c.real("t", near=(0, 1))
        tim = lambda i: tt
    elif kind == "0d":
        tt = c.ten("ts", (), near=(0, 1))
        tim = lambda i: c.at(tt)
    else:
        tt = c.ten("tn", (n,), near=(0, 1))
        tim = lambda i: c.at(tt, i)
    out = p[0](v, tt)
    c.same_t("law", out, (n, 3), lambda i, q: spec_motion(c, p, vec(c, v, i), tim(i))[q])
    c.unchanged("frame", v, snap)


@case("C01", M)
def call_stacks(c):
    """stacks of point lists, with one common or one individual time per list: every point as on its own"""
    p = motion(c)
    n, m = c.dim("N", 1), c.dim("M", 1)
    v = c.ten("v", (n, m, 3))
    snap = c.snapshot(v)
    kind = c.pick("kind", ["float", "N"])
    if kind == "float":
        tt = c.real("t", near=(0, 1))
        tim = lambda i: tt
    else:
        tt = c.ten("tn", (n,), near=(0, 1))
        tim = lambda i: c.at(tt, i)
    out = p[0](v, tt)
    c.same_t("law", out, (n, m, 3), lambda i, j, q: spec_motion(c, p, vec(c, v, i, j), tim(i))[q])
    c.unchanged("frame", v, snap)


@case("C01", M + ["motion.RigidBodyMotion.rotate"])
def rotate(c):
    """a direction, a list or a stack of directions: rotation only"""
    p = motion(c)
    t = c.real("t", near=(0, 1))
    if c.pick("kind", ["one", "many"]) == "one":
        v = c.ten("v", (3,))
        c.same_t("law", p[0].rotate(v, t), (3,), lambda q: spec_rot(c, p[1], p[2] * t, vec(c, v))[q])
    else:
        n = c.dim("N", 1)
        w = c.ten("w", (n, 3))
        c.same_t("law", p[0].rotate(w, t), (n, 3), lambda i, q: spec_rot(c, p[1], p[2] * t, vec(c, w, i))[q])


@case("C01", M + ["motion._RodriguezRotator.get_rotation_matrix"])
def matrices(c):
    """the rotation matrices of the times are those of the Rodrigues formula"""
    k = c.unit("axis")
    rot = c.mod("motion")._RodriguezRotator(k)
    n = c.dim("N", 1)
    a = c.ten("ang", (n,))
    R = rot.get_rotation_matrix(a)
    e = lambda j: [1.0 if q == j else 0.0 for q in range(3)]
    c.same_t("rodrigues", R, (n, 3, 3), lambda i, q, j: spec_rot(c, vec(c, k), c.at(a, i), e(j))[q])
    for i in c.each(n):
        m = [[c.at(R, i, q, j) for j in range(3)] for q in range(3)]
        for q in range(3):
            for j in range(3):
                c.same("orthogonal[%d][%d]" % (q, j), sum(m[s][q] * m[s][j] for s in range(3)), 1.0 if q == j else 0.0)
        det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
               + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
        c.same("proper", det, 1.0)


@case("C01", M + ["motion.RigidBodyMotion.translate"])
def translate(c):
    """a point or list of points moves by time times translation, whatever the times' layout"""
    p = motion(c)
    t = c.real("t", near=(-1, 2))
    v = c.ten("v", (3,))
    raised, out = c.attempt(lambda: p[0].translate(v, t), AssertionError, ValueError)
    ok = c.and_(c.le(0, t), c.le(t, 1))
    c.ensure("domain", c.iff(ok, not raised))
    if not raised:
        c.same_t("law", out, (3,), lambda q: c.at(v, q) + p[3][q] * t)


@case("C01", M + ["motion.RigidBodyMotion.inverse"])
def inverse(c):
    """inverse() undoes a pure rotation about the origin point and a pure translation, and keeps its angle and origin"""
    p = motion(c)
    m, k, ang, tr, og = p
    inv = m.inverse()
    for q in range(3):
        c.same("axis[%d]" % q, c.at(inv.rotation_axis, q), -k[q])
        c.same("translation[%d]" % q, c.at(inv.translation, q), -tr[q])
        c.same("origin[%d]" % q, c.at(inv.origin, q), og[q])
    c.same("angle", c.at(inv.rotation_angle), ang)
    v = c.ten("v", (3,))
    t = c.real("t", 0, 1)
    out = inv.rotate(m.rotate(v, t), t)
    c.same_t("undo-rotation", out, (3,), lambda q: c.at(v, q))
    out = inv.translate(m.translate(v, t), t)
    c.same_t("undo-translation", out, (3,), lambda q: c.at(v, q))


@case("C01", ["motion.RigidBodyMotion.__init__"])
def angle_domain(c):
    """angles outside of (0, pi) are refused, all others accepted"""
    k = c.unit("axis")
    ang = c.real("angle", near=(-7, 7))
    raised, m = c.attempt(lambda: c.mod("motion").RigidBodyMotion(k, ang, c.const([0.0, 0.0, 0.0])), AssertionError, ValueError)
    c.ensure("accepted-iff-in-domain", c.iff(c.and_(c.lt(0, ang), c.lt(ang, c.pi)), not raised))


@case("C01", M)
def identity_at_zero_and_composition(c):
    """time 0 is the identity; rotating by s then t equals rotating by s+t"""
    p = motion(c)
    v = c.ten("v", (3,))
    c.same_t("identity", p[0](v, 0.0), (3,), lambda q: c.at(v, q))
    s, t = c.real("s", near=(0, 1)), c.real("t", near=(0, 1))
    c.same_t("group", p[0].rotate(p[0].rotate(v, s), t), (3,), lambda q: spec_rot(c, p[1], p[2] * (s + t), vec(c, v))[q])


@case("C01", M)
def isometry(c):
    """distances and angles between points and between directions are preserved"""
    p = motion(c)
    n = c.dim("N", 1)
    v, w = c.ten("v", (n, 3)), c.ten("w", (n, 3))
    t = c.real("t", near=(0, 1))
    a, b = p[0](v, t), p[0](w, t)
    for i in c.each(n):
        x, y, X, Y = vec(c, v, i), vec(c, w, i), vec(c, a, i), vec(c, b, i)
        c.same("distance", sum((X[q] - Y[q]) * (X[q] - Y[q]) for q in range(3)), sum((x[q] - y[q]) * (x[q] - y[q]) for q in range(3)))
