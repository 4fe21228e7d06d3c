"""C16  point-spread kernel and convolution."""
import math
from engine.api import case, Skip
from contracts._scene import *

K, V, I = "detector.Detector._generate_gaussian_kernel", "detector.Detector._conv2d_gaussian_kernel", "detector.Detector.__init__"


@case("C16", [K], samples=80, budget=30)
def kernel(c):
    """odd size, smallest radius below half the threshold (or the limit), sampled Gaussian, sum one"""
    d = object.__new__(c.mod("detector").Detector)
    d.det_corner_0 = c.ten("c0", (3,))
    sg, th = c.real("sigma", 0.05, 6, open=True) if not c.sym else c.real("sigma", 0, None, open=True), c.real("threshold", 0, None, open=True, near=(0, 2))
    R = c.int("limit", 0, None if c.sym else 25)
    d.gaussian_sigma, d.kernel_threshold, d._max_gaussian_kernel_radius = sg, th, R
    g = lambda q: c.exp(0 - q / (2 * sg * sg))
    # radius 1 .. radius-1 did not fall below half the threshold (the Gaussian decreases, so the last one decides)
    c.loop("Detector._generate_gaussian_kernel#0", {"radius": lambda env: c.int("r", 1)},
           lambda e: c.and_(c.le(1, e["radius"]), c.le(e["radius"], c.max(R, 0) + 1),
                            c.or_(c.eq(e["radius"], 1), c.le(th / 2, g((e["radius"] - 1) * (e["radius"] - 1))))),
           variant=lambda e: R + 1 - e["radius"])
    k = d._generate_gaussian_kernel()
    n = c.shape(k)[0]
    c.same_shape("square", k, (n, n))
    r = c.floor(n / 2) if c.sym else n // 2
    c.ensure("odd", c.eq(n, 2 * r + 1))
    c.ensure("within the limit", c.and_(c.le(0, r), c.le(r, R), c.implies(c.le(1, R), c.le(1, r))))
    near = lambda a: not c.sym and abs(float(a) - th / 2) < 1e-9
    c.ensure("no smaller radius suffices", c.or_(c.le(r, 1), c.le(th / 2, g((r - 1) * (r - 1))), near(g((r - 1) * (r - 1)))))
    c.ensure("this radius suffices or is the limit", c.or_(c.eq(r, R), c.lt(g(r * r), th / 2), near(g(r * r))))
    Z = c.sum((n, n), lambda i, j: g((i - r) * (i - r) + (j - r) * (j - r)))
    for i in c.each(n, name="i"):
        for j in c.each(n, name="j"):
            c.same("Gaussian", c.at(k, i, j) * Z, g((i - r) * (i - r) + (j - r) * (j - r)))
            c.ensure("symmetric", c.and_(c.eq(c.at(k, i, j), c.at(k, j, i)), c.eq(c.at(k, i, j), c.at(k, 2 * r - i, j))))
            c.ensure("not negative", c.le(0, c.at(k, i, j)))
    c.same("sum", c.sum((n, n), lambda i, j: c.at(k, i, j)), 1)


@case("C16", [V], samples=60)
def convolution(c):
    """every pixel is the kernel weighted sum of its neighbourhood, zero outside of the frame; frames of a stack separately; input kept"""
    d = object.__new__(c.mod("detector").Detector)
    r = c.int("r", 0, None if c.sym else 3)
    n = 2 * r + 1
    H, W = c.dim("H", 1), c.dim("W", 1)
    k = d.gaussian_kernel = c.ten("k", (n, n), near=(0, 1))
    lay = c.pick("layout", ["frame", "stack"])
    S = None if lay == "frame" else c.dim("S", 1)
    f = c.ten("frame", (H, W) if S is None else (S, H, W), near=(-5, 5))
    snap, ks = c.snapshot(f), c.snapshot(k)
    out = d._conv2d_gaussian_kernel(f)
    c.same_shape("shape", out, (H, W) if S is None else (S, H, W))
    c.unchanged("input", f, snap)
    c.unchanged("kernel", k, ks)

    def px(s, i, j):
        if c.sym:
            return c.ite(c.and_(c.le(0, i), c.lt(i, H), c.le(0, j), c.lt(j, W)), c.at(f, *(([] if S is None else [s]) + [i, j])), 0)
        return c.at(f, *(([] if S is None else [s]) + [i, j])) if 0 <= i < H and 0 <= j < W else 0.0
    for s in (c.each(S, name="s") if S is not None else [None]):
        for i in c.each(H, name="i"):
            for j in c.each(W, name="j"):
                w = c.sum((n, n), lambda a, b: px(s, i + a - r, j + b - r) * c.at(k, a, b))
                c.same("pixel", c.at(out, *(([] if S is None else [s]) + [i, j])), w, tol=1e-9, scale=1)
