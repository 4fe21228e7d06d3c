"""C12  micro rendering."""
import math
from engine.api import case, Skip
from contracts._scene import *

R = "detector.Detector._render_gauss_peaks"


def micro_table(c, F, H, W):
    """rows with arbitrary positions (also far outside), frames, factors and volumes"""
    M = c.dim("M", 0, None if c.sym else 9)
    if c.sym:
        fr = c.ten("frame", (M,), 0, F - 1, dtype="int")
        base = c.ten("tab", (M, 30), where=lambda x, i, j: c.and_(c.le(0, x(i, 29)), c.le(0, x(i, 21))))
        T = lambda i, j: c.ite(c.eq(j, 28), c.at(fr, i), c.at(base, i, j))
        return M, c.fnten(T, (M, 30)), T
    np, rng = c.np, c.rng
    t = np.array([[rng.uniform(0, 5) for _ in range(30)] for _ in range(M)]).reshape(M, 30)
    for i in range(M):
        t[i, 28] = rng.randrange(F)
        t[i, 25] = rng.choice([rng.uniform(0, 1), rng.uniform(-0.05, 1.05), 0.0, 1.0, 0.5 / H, 1.5 / H]) * H
        t[i, 26] = rng.choice([rng.uniform(0, 1), rng.uniform(-0.05, 1.05), 0.0, 1.0, 2.5 / W]) * W
        t[i, 21] = rng.choice([rng.uniform(0, 5), 1e-3, 40.0])
        t[i, 29] = rng.choice([rng.uniform(0, 50), 1e4, 1e-3])
    return M, c.torch.tensor(t), (lambda i, j: t[i, j])


def micro_detector(c, H, W):
    d = object.__new__(c.mod("detector").Detector)
    d._verbose = False
    d.gaussian_sigma = c.real("sigma", 0, 2.5, open=True) if not c.sym else c.real("sigma", 0, None, open=True)
    d.pixel_size_z, d.pixel_size_y = c.ten("pz", (), 0.3, 3, open=True) if not c.sym else c.ten("pz", (), 0, None, open=True), c.ten("py", (), 0.3, 3, open=True) if not c.sym else c.ten("py", (), 0, None, open=True)
    d.pixel_coordinates = c.ten("pixels", (H, W, 3))
    d.det_corner_0 = c.ten("c0", (3,))
    return d


@case("C12", [R], samples=60, budget=40)
def spots(c):
    """every pixel of every frame is the sum, over the peaks of that frame, of their normalised Gaussian at that pixel"""
    H, W = c.dim("H", 1, None if c.sym else 30), c.dim("W", 1, None if c.sym else 30)
    F = c.int("F", 1, None if c.sym else 3)
    d = micro_detector(c, H, W)
    M, tab, T = micro_table(c, F, H, W)
    free = c.real("free", 0)
    c.mod("detector").return_device_memory = lambda: {"free_gb": free}
    snap = c.snapshot(tab)
    out = d._render_gauss_peaks(tab, F, c.torch.float64)
    c.same_shape("one image per frame", out, (F, H, W))
    c.unchanged("peaks", tab, snap)
    s2 = 0.7 * 0.7 + d.gaussian_sigma * d.gaussian_sigma
    s = c.sqrt(s2)
    rad = c.max(3, c.floor(3 * s) + 1)
    n = 2 * rad + 1
    pz, py = c.at(d.pixel_size_z), c.at(d.pixel_size_y)
    rnd = (lambda x: c.fn("round", x)) if c.sym else (lambda x: float(c.np.round(x)))

    def spot(p, i, j):
        z, y = T(p, 25) / pz, T(p, 26) / py
        cz, cy = rnd(z), rnd(y)
        g = lambda a, b: c.exp(0 - ((cz + a - rad - z) * (cz + a - rad - z) + (cy + b - rad - y) * (cy + b - rad - y)) / (2 * s2))
        return z, y, cz, cy, g
    if c.sym:
        for f in c.each(F, name="f"):
            for i in c.each(H, name="i"):
                for j in c.each(W, name="j"):
                    def term(p, k):
                        a, b = k // n, k % n
                        z, y, cz, cy, g = spot(p, i, j)
                        tot = c.sum((n * n,), lambda q: g(q // n, q % n)) + 1e-12
                        w = g(a, b) / tot * (T(p, 29) * T(p, 21))
                        hit = c.and_(c.eq(T(p, 28), f), c.eq(cz + a - rad, i), c.eq(cy + b - rad, j), c.lt(1e-6, w))
                        return c.ite(hit, w, 0)
                    c.same("pixel", c.at(out, f, i, j), c.sum((M, n * n), term))
    else:
        np = c.np
        o, t = np_(out), np_(tab).reshape(-1, 30)
        ref, slack = np.zeros((F, H, W)), np.zeros((F, H, W))
        sg = math.sqrt(0.49 + float(d.gaussian_sigma) ** 2)
        r = max(3, int(3 * sg) + 1)
        c.assume(abs(3 * sg - round(3 * sg)) > 1e-9)
        kz, ky = np.meshgrid(np.arange(-r, r + 1), np.arange(-r, r + 1), indexing="ij")
        for p in range(M):
            z, y = t[p, 25] / float(pz), t[p, 26] / float(py)
            c.assume(min(abs(z % 1 - 0.5), abs(y % 1 - 0.5)) > 1e-9 or (z * 2 == round(z * 2) and y * 2 == round(y * 2)))
            iz, iy = int(np.round(z)) + kz, int(np.round(y)) + ky
            w = np.exp(-((iz - z) ** 2 + (iy - y) ** 2) / (2 * sg * sg))
            w = w / (w.sum() + 1e-12) * t[p, 29] * t[p, 21]
            use = (iz >= 0) & (iz < H) & (iy >= 0) & (iy < W)
            f = int(t[p, 28])
            np.add.at(ref[f], (iz[use & (w > 1e-6)], iy[use & (w > 1e-6)]), w[use & (w > 1e-6)])
            # single precision positions
            np.add.at(slack[f], (iz[use], iy[use]), 1e-4 * w[use] + 2e-6 * (np.abs(w[use] - 1e-6) < 1e-8))
        c.ensure("pixels", bool((np.abs(o - ref) <= slack + 1e-12).all()))
        # order of the peaks and grouping into calls do not matter
        if M > 1:
            perm = list(range(M))
            c.rng.shuffle(perm)
            o2 = np_(d._render_gauss_peaks(tab[c.torch.tensor(perm)], F, c.torch.float64))
            c.ensure("order of the peaks", bool(np.allclose(o, o2, rtol=1e-9, atol=1e-12)))
            k = c.rng.randint(0, M)
            o3 = np_(d._render_gauss_peaks(tab[:k], F, c.torch.float64)) + np_(d._render_gauss_peaks(tab[k:], F, c.torch.float64))
            c.ensure("grouping of the peaks", bool(np.allclose(o, o3, rtol=1e-9, atol=1e-12)))


@case("C12", [R], sym=False, samples=6, bounded="tables of 10000 to 20100 peaks (two or three batches) on a 4 x 5 detector")
def batches(c):
    """tables larger than a batch are rendered like their parts"""
    H, W = 4, 5
    d = micro_detector(c, H, W)
    c.mod("detector").return_device_memory = lambda: {"free_gb": c.rng.choice([1, 1e3, 1e6, 6e6])}
    np = c.np
    M = c.rng.choice([10000, 10001, 12345, 20000, 20100])
    c.inputs["M"] = M
    r = np.random.default_rng(c.rng.randrange(10 ** 9))
    t = r.uniform(0, 5, (M, 30))
    t[:, 28] = r.integers(0, 2, M)
    tab = c.torch.tensor(t)
    out = np_(d._render_gauss_peaks(tab, 2, c.torch.float64))
    ref = sum(np_(d._render_gauss_peaks(tab[a:a + 5000], 2, c.torch.float64)) for a in range(0, M, 5000))
    c.ensure("batches", bool(np.allclose(out, ref, rtol=1e-9, atol=1e-9)))
