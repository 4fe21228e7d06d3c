"""C14  nano rendering: Airy kernels, their sub-pixel deposition, frames as sums over peaks."""
import math
from engine.api import case, Skip
from contracts._scene import *
from contracts.c12_micro import micro_table, micro_detector

D, K, R, E = ("detector.Detector._deposit_kernels_batch", "detector.Detector._airy_kernel_batch", "detector.Detector._render_airy_peaks",
              "detector.Detector._estimate_airy_kernel_memory")


@case("C14", [D], samples=60, budget=40)
def deposit(c):
    """every pixel gains, over all kernels and kernel cells, the cell's value times the bilinear weight of the pixel at the cell's sub-pixel position;
    nothing else changes and only what falls outside is lost"""
    N = c.dim("N", 1, None if c.sym else 4)
    h, w = c.int("h", 0, None if c.sym else 3), c.int("w", 0, None if c.sym else 3)
    kh, kw = 2 * h + 1, 2 * w + 1
    H, W = c.dim("H", 1), c.dim("W", 1)
    d = object.__new__(c.mod("detector").Detector)
    frame = c.ten("frame", (H, W), near=(0, 5))
    ker = c.ten("ker", (N, 1, kh, kw), near=(0, 2))
    cz, cy = c.ten("cz", (N,), None if c.sym else -3, None if c.sym else 8), c.ten("cy", (N,), None if c.sym else -3, None if c.sym else 8)
    f0, k0, z0, y0 = (c.snapshot(t) for t in (frame, ker, cz, cy))
    out = d._deposit_kernels_batch(frame, ker, cz, cy, c.torch.float64)
    c.same_shape("shape", out, (H, W))
    for nm, t, s in (("kernels", ker, k0), ("centers z", cz, z0), ("centers y", cy, y0)):
        c.unchanged(nm, t, s)
    if not c.sym:
        np = c.np
        ref = np_(f0).copy()
        hat = lambda p, i: max(0.0, 1 - abs(p - i))
        for n in range(N):
            for a in range(kh):
                for b in range(kw):
                    z, y = float(cz[n]) + a - h, float(cy[n]) + b - w
                    for i in range(max(0, math.floor(z)), min(H, math.floor(z) + 2)):
                        for j in range(max(0, math.floor(y)), min(W, math.floor(y) + 2)):
                            ref[i, j] += float(ker[n, 0, a, b]) * hat(z, i) * hat(y, j)
        c.ensure("pixels", bool(np.allclose(np_(out), ref, rtol=1e-6, atol=1e-6)))
        return

    def cell(s, i, j, oz, oy):
        n, a, b = s // (kh * kw), (s // kw) % kh, s % kw
        z, y = c.at(cz, n) + (a - h), c.at(cy, n) + (b - w)
        fz, fy = z - c.floor(z), y - c.floor(y)
        wt = (fz if oz else 1 - fz) * (fy if oy else 1 - fy)
        return c.ite(c.and_(c.eq(c.floor(z) + oz, i), c.eq(c.floor(y) + oy, j)), c.at(ker, n, 0, a, b) * wt, 0)
    for i in c.each(H, name="i"):
        for j in c.each(W, name="j"):
            tot = sum(c.sum(N * kh * kw, lambda s, oz=oz, oy=oy: cell(s, i, j, oz, oy)) for oz in (0, 1) for oy in (0, 1))
            c.same("pixel", c.at(out, i, j), c.at(f0, i, j) + tot)


@case("C14", [D], concrete=False)
def hat_weights(c):
    """the four bilinear corner weights of a position are the products of the hat functions of the pixel rows and columns, and sum to one"""
    z, i = c.real("z"), c.int("i")
    fz = z - c.floor(z)
    one = c.ite(c.eq(c.floor(z), i), 1 - fz, 0) + c.ite(c.eq(c.floor(z) + 1, i), fz, 0)
    c.same("hat", one, c.max(0, 1 - c.abs(z - i)))
    c.ensure("not negative", c.and_(c.le(0, fz), c.le(fz, 1)))


@case("C14", [R], samples=60, budget=40)
def every_peak_once(c):
    """every peak is deposited once, in its frame, at its position over the pixel size, with its kernel scaled by factor times volume; whatever the memory, order and number
    of peaks; each frame is then spread by the detector's point spread (callees by their contracts)"""
    H, W = c.dim("H", 1), c.dim("W", 1)
    F = c.dim("F", 1)
    M, tab, T = micro_table(c, F, H, W)
    d = micro_detector(c, H, W)
    free = c.real("free", 0, None if c.sym else 3)
    det = c.mod("detector")
    det.return_device_memory = lambda: {"free_gb": free}
    asked = []

    def memory(fwhm, angle):
        asked.append(1)
        c.same_t("widths", fwhm, (M,), lambda e: T(e, 23))
        c.same_t("angles", angle, (M,), lambda e: T(e, 27))
        return c.ten("mem", (M,), 0, None if c.sym else 1e9)
    d._estimate_airy_kernel_memory = memory
    K = (lambda a, b: c.uf("K", a, b)) if c.sym else (lambda a, b: 0.2 + 0.3 * a + 0.05 * a * b)
    Wt = (lambda z, y, i, j: c.uf("W", z, y, i, j)) if c.sym else (lambda z, y, i, j: 1 / (1 + (z - i) ** 2 + 2 * (y - j) ** 2))

    def kernels(fwhm, angle):
        n = c.shape(fwhm)[0]
        f, a = c.snapshot(fwhm), c.snapshot(angle)
        return c.fnten(lambda e, q, i, j: K(c.at(f, e), c.at(a, e)), (n, 1, 1, 1))
    d._airy_kernel_batch = kernels

    def deposit(frame, ker, cz, cy, dtype):
        c.same_shape("one frame", frame, (H, W))
        n = c.shape(ker)[0]
        c.same_shape("row positions", cz, (n,))
        c.same_shape("column positions", cy, (n,))
        fr, k, z, y = (c.snapshot(t) for t in (frame, ker, cz, cy))
        return c.fnten(lambda i, j: c.at(fr, i, j) + c.sum((n,), lambda e: c.at(k, e, 0, 0, 0) * Wt(c.at(z, e), c.at(y, e), i, j)), (H, W))
    d._deposit_kernels_batch = deposit
    u = c.real("psf", near=(0.1, 2))
    d._conv2d_gaussian_kernel = lambda f: (lambda s: c.fnten(lambda i, j: u * c.at(s, i, j), (H, W)))(c.snapshot(f))
    pz, py = c.at(d.pixel_size_z), c.at(d.pixel_size_y)
    term = lambda t, e, f, i, j: c.ite(c.eq(t(e, 28), f), K(t(e, 23), t(e, 27)) * (t(e, 29) * t(e, 21)) * Wt(t(e, 25) / pz, t(e, 26) / py, i, j), 0)

    def done(pk, s, f, i, j):
        """the peaks of the sorted table before s"""
        if s is not M and c.known(c.eq(s, M)):
            s = M
        return c.sum((M,), lambda e: c.ite(c.lt(e, s), term(lambda r, q: c.at(pk, r, q), e, f, i, j), 0))

    def inv(env):
        return c.and_(c.le(0, env["start_idx"]), c.le(env["start_idx"], M))

    def check(env, when):
        for f in c.each(F, name="f"):
            for i in c.each(H, name="i"):
                for j in c.each(W, name="j"):
                    if when == "preserved":
                        row = lambda r, q: c.at(env["peaks"], r, q)
                        s, t = head["s"], env["start_idx"]
                        hit = lambda e: c.eq(row(s + e, 28), f)
                        c.sum_split("batch inside of the table", M, s, t, lambda e: term(row, e, f, i, j))
                        c.sum_zero("no peak of the frame in the batch", t - s, hit, lambda e: term(row, s + e, f, i, j))
                    c.same("frames hold the peaks of the batches so far, " + when, c.at(env["frames"], f, i, j), done(env["peaks"], env["start_idx"], f, i, j))
    head = {}

    def start(env):
        head["s"] = c.int("s")
        c.assume(c.and_(c.le(0, head["s"]), c.le(head["s"], M)))
        return head["s"]
    # at the loop head the frames are what the invariant says they are
    c.loop("Detector._render_airy_peaks#0", {"start_idx": start, "batch_num": lambda env: c.int("b"),
                                             "frames": lambda env: c.fnten(lambda f, i, j, pk=env["peaks"]: done(pk, head["s"], f, i, j), (F, H, W))}, inv,
           variant=lambda env: M - env["start_idx"], check=check)
    snap = c.snapshot(tab)
    out = d._render_airy_peaks(tab, F, c.torch.float64)
    c.same_shape("one image per frame", out, (F, H, W))
    c.unchanged("peaks", tab, snap)
    for f in c.each(F, name="f"):
        for i in c.each(H, name="i"):
            for j in c.each(W, name="j"):
                c.same("pixel", c.at(out, f, i, j), u * c.sum((M,), lambda e: term(T, e, f, i, j)))



@case("C14", [K], sym=False, samples=150, bounded="batches of one to four kernels, widths of 0.02 to 20 pixels, incident angles up to 60 degrees")
def kernels(c):
    """the kernel of each peak samples the Airy intensity with its first zero at 1.1861 times the Scherrer width seen at the detector's distance along the ray,
    on whole pixels around its centre, symmetric; its sum is one up to what is cropped, at most the threshold; a width far below a pixel gives the detector's Gaussian"""
    from scipy.special import j1
    np, torch, rng = c.np, c.torch, c.rng
    px = rng.uniform(0.2, 3)
    d = any_detector(c, size=(6 * px, 6 * px), n_pixels=6, gaussian_sigma=rng.choice([1.0, rng.uniform(0.3, 3)]),
                     kernel_threshold=rng.choice([0.1, 0.02, 0.2]), max_gaussian_kernel_radius=9)[0]
    d._verbose = False
    N = rng.randint(1, 4)
    dist, px = float(torch.linalg.norm(d.det_corner_0)), float(d.pixel_size_z)
    ang = np.array([rng.choice([0.0, rng.uniform(0, 60)]) for _ in range(N)])
    R_ = dist / np.cos(np.radians(ang))
    wide = np.array([rng.choice([rng.uniform(0.02, 0.4), rng.uniform(0.4, 3), rng.uniform(3, 20 if N == 1 else 6)]) for _ in range(N)])
    fwhm = wide * px / R_
    c.inputs.update(angles=ang.tolist(), widths=wide.tolist(), sigma=d.gaussian_sigma, threshold=d.kernel_threshold)
    k = np_(d._airy_kernel_batch(torch.tensor(fwhm), torch.tensor(ang)))
    n = k.shape[-1]
    c.ensure("one odd square kernel for each peak", k.shape == (N, 1, n, n) and n % 2 == 1)
    h = n // 2
    a = np.arange(-h, h + 1)
    r = np.hypot(*np.meshgrid(a, a, indexing="ij"))
    for e in range(N):
        z = 1.1861 * wide[e]
        if abs(z - 0.5) < 1e-6 or abs(z - d.gaussian_sigma) < 1e-6:
            raise Skip()
        q = k[e, 0]
        x = 3.8317 * np.where(r == 0, 1e-6, r) / z
        want = (2 * j1(x) / x) ** 2
        if z < d.gaussian_sigma:
            want = want * np.exp(-r ** 2 / (2 * d.gaussian_sigma ** 2))
        if z < 0.5:
            want = np.exp(-r ** 2 / (2 * d.gaussian_sigma ** 2))
        c.ensure("no cell undefined or negative", bool((q >= 0).all()))
        c.ensure("symmetric", bool(np.allclose(q, q[::-1]) and np.allclose(q, q.T)))
        half = max(i for i in range(h + 1) if i == 0 or q[h - i, h] > 0 or q[h - i, h - i] > 0 or q[h - i].any())
        box_ = np.maximum(*np.abs(np.meshgrid(a, a, indexing="ij"))) <= half
        c.ensure("Airy intensities", bool(np.allclose(q / q[h, h], np.where(box_, want, 0), rtol=1e-6, atol=1e-9)))
        s = q.sum()
        c.ensure("sum", s <= 1 + 1e-9 and (s >= 1 - d.kernel_threshold - 1e-9))
        inner = q[h - half + 1:h + half, h - half + 1:h + half].sum() if half > 1 else 0
        c.ensure("no larger than needed", half <= 1 or inner < 1 - d.kernel_threshold + 1e-9)


@case("C14", [R, K, D], sym=False, samples=100, bounded="tables of up to six peaks, frames of up to 80 pixels")
def spots(c):
    """intensity of a peak well inside of the frame: factor times volume times the sum of its kernel (one up to the threshold), with its centre of gravity at the peak"""
    np, torch, rng = c.np, c.torch, c.rng
    H, W = rng.randint(50, 80), rng.randint(50, 80)
    px = rng.uniform(0.2, 3)
    d = any_detector(c, size=(H * px, W * px), n_pixels=(H, W), gaussian_sigma=1.0, kernel_threshold=0.1)[0]
    d._verbose = False
    dist, px = float(torch.linalg.norm(d.det_corner_0)), float(d.pixel_size_z)
    M = rng.randint(1, 6)
    t = np.zeros((M, 30))
    for e in range(M):
        a = rng.uniform(0, 50)
        t[e, 27], t[e, 23] = a, rng.uniform(0.05, 2.5) * px * math.cos(math.radians(a)) / dist
        t[e, 25], t[e, 26] = rng.uniform(24, H - 25) * px, rng.uniform(24, W - 25) * px
        t[e, 21], t[e, 29], t[e, 28] = rng.uniform(0.1, 5), rng.uniform(0.1, 50), e
    c.mod("detector").return_device_memory = lambda: {"free_gb": rng.choice([0.0, 1e-5, 8.0])}
    c.inputs["table"] = t.tolist()
    out = np_(d._render_airy_peaks(torch.tensor(t), M, torch.float64))
    c.ensure("frames", out.shape == (M, H, W))
    I, J = np.meshgrid(np.arange(H), np.arange(W), indexing="ij")
    for e in range(M):
        f, want = out[e], t[e, 21] * t[e, 29]
        c.ensure("never undefined or negative", bool((f >= 0).all()))
        c.ensure("intensity", (1 - 0.1) * want - 1e-6 * want <= f.sum() <= want * (1 + 1e-6))
        c.ensure("centre of gravity", abs((f * I).sum() / f.sum() - t[e, 25] / px) < 1e-3 and abs((f * J).sum() / f.sum() - t[e, 26] / px) < 1e-3)
