"""C15  render: every peak once, with the renderer of its size."""
import math
from engine.api import case, Skip
from contracts._scene import *

R = "detector.Detector.render"
NAMES = {"nano": "_render_airy_peaks", "micro": "_render_gauss_peaks", "macro": "_render_projected_volumes"}


def stubbed(c, M, tab, F, H, W, calls):
    """a detector whose renderers answer with their contract: the sum of one spot per row they are given, in F frames of the detector's shape"""
    d = object.__new__(c.mod("detector").Detector)
    d.pixel_coordinates = c.ten("pixels", (H, W, 3))
    d.pixel_size_z, d.pixel_size_y = c.ten("pz", (), 0, None, open=True, near=(0.2, 3)), c.ten("py", (), 0, None, open=True, near=(0.2, 3))
    spots = {k: c.ten("spot_" + k, (M, F, H, W), near=(0, 5)) for k in NAMES}
    seen = {}

    def pdi(peaks_dict, frames=1, verbose=True):
        calls.append(("intersect", frames))
        return dict(peaks_dict, peaks=tab, verbose=False)

    def make(k):
        def render(peaks, *a):
            calls.append((k, a))
            m = c.shape(peaks)[0]
            ids = c.snapshot(peaks)
            if not c.sym:
                seen[k] = [int(v) for v in np_(peaks)[:, 24]]

            def spot(f, i, j):
                g = lambda e: c.at(spots[k], c.floor(c.at(ids, e, 24)) if c.sym else int(c.at(ids, e, 24)), f, i, j)
                return c.sum(m, g)
            return c.fnten(spot, (F, H, W))
        return render
    d.peaks_detector_intersection = pdi
    for k, n in NAMES.items():
        setattr(d, n, make(k))
    return d, spots, seen


def peak_table(c, vol=None):
    M = c.dim("M", 0, None if c.sym else 8)
    base = c.ten("tab", (M, 30), near=(0, 9))
    v = c.ten("vol", (M,), 0, None) if c.sym else c.fnten(lambda i: c.rng.choice([0.0, 0.0005, 0.001, 0.01, 0.5, 1.0, 1.0, 2.0, 8.0]), (M,))
    return M, c.fnten(lambda i, j: c.ite(c.eq(j, 24), i, c.ite(c.eq(j, 21), c.at(v, i), c.at(base, i, j))), (M, 30)), v


@case("C15", [R], samples=60, budget=30)
def auto_dispatch(c):
    """the frames are the sum over all peaks of the spot of one renderer: nano below the micro limit, else macro from the macro limit on, else micro"""
    M, tab, vol = peak_table(c)
    want = c.pick("frames", ["many", 1] if c.sym else ["many", 1, 0, -3])
    F = c.int("F", 1, None if c.sym else 4) if want == "many" else 1
    ask = F if want == "many" else want
    H, W = c.dim("H", 1), c.dim("W", 1)
    calls = []
    d, spots, seen = stubbed(c, M, tab, F, H, W, calls)
    beam, mesh, rbm = object(), object(), object()
    lim = c.pick("limits", ["given", "default"])
    kw = {}
    mic, mac = 0.1 ** 3, None
    if lim == "given":
        mic, mac = c.real("micro", near=(0, 3)), c.real("macro", near=(0, 3))
        if not c.sym:
            mic, mac = c.rng.choice([0.0, 0.001, 0.5, 2.0]), c.rng.choice([0.0005, 0.5, 1.0, 2.0])
        kw = {"micro_grain_limit": mic, "macro_grain_limit": mac}
    else:
        q = c.min(c.at(d.pixel_size_z), c.at(d.pixel_size_y))
        mac = q * q * q
    given = {"peaks": tab, "columns": [], "beam": beam, "mesh_lab": mesh, "rigid_body_motion": rbm}
    out, dic = d.render(given, frames_to_render=ask, verbose=False, **kw)
    c.same_shape("one image per frame", out, (F, H, W))
    c.ensure("peaks returned", dic["peaks"] is tab)
    c.ensure("intersected once for these frames", [x[1] for x in calls if x[0] == "intersect"] == ([ask] if want == 1 else [F]) or c.sym)
    c.ensure("each renderer at most once", all(sum(x[0] == k for x in calls) <= 1 for k in NAMES))
    for k, a in calls:
        if k == "macro":
            c.ensure("macro context", a[0] is beam and a[1] is mesh and a[2] is rbm)
    nano = lambda i: c.lt(c.at(vol, i), mic, tol=0)
    macro = lambda i: c.and_(c.not_(nano(i)), c.le(mac, c.at(vol, i), tol=0))
    for f in c.each(F, name="f"):
        for i in c.each(H, name="i"):
            for j in c.each(W, name="j"):
                w = c.sum(M, lambda e: c.ite(nano(e), c.at(spots["nano"], e, f, i, j), c.ite(macro(e), c.at(spots["macro"], e, f, i, j), c.at(spots["micro"], e, f, i, j))))
                c.same("frame", c.at(out, f, i, j), w, tol=1e-9)


@case("C15", [R], samples=40, budget=30)
def named_method(c):
    """nano, micro and macro render every peak with that renderer; anything else is refused"""
    M, tab, vol = peak_table(c)
    F = c.int("F", 1, None if c.sym else 4)
    H, W = c.dim("H", 1), c.dim("W", 1)
    calls = []
    d, spots, seen = stubbed(c, M, tab, F, H, W, calls)
    k = c.pick("method", ["nano", "micro", "macro", "unknown", "Micro", ""])
    given = {"peaks": tab, "columns": [], "beam": 1, "mesh_lab": 2, "rigid_body_motion": 3}
    run = lambda: d.render(given, frames_to_render=F, method=k, verbose=False)
    if k not in NAMES:
        c.ensure("refused", c.attempt(run, ValueError)[0])
        c.ensure("nothing rendered", not any(x[0] in NAMES for x in calls))
        return
    out, dic = run()
    c.same_shape("one image per frame", out, (F, H, W))
    c.ensure("only that renderer", [x[0] for x in calls if x[0] != "intersect"] == [k])
    if k == "macro":
        a = [x[1] for x in calls if x[0] == k][0]
        c.ensure("macro context", tuple(a[:3]) == (1, 2, 3))
    for f in c.each(F, name="f"):
        for i in c.each(H, name="i"):
            for j in c.each(W, name="j"):
                c.same("frame", c.at(out, f, i, j), c.sum(M, lambda e: c.at(spots[k], e, f, i, j)), tol=1e-9)
