"""Cropping of a phase image: exactly the pixels of the circle, each with its phase and polar coordinates."""
import math
from run import Task

BOUNDS = ("images 3..7 x 3..7, 9 x 9, 10 x 10, 12 x 11, 5 x 12 (thorough 3..11 x 3..11, 17 x 17, 18 x 18) with all pixel values symbolic (-100..100; also integer images); crop fraction: "
          "any real number in -1..3, both border rules; sizes 0..2, other numbers of dimensions, no arrays")
OUTSIDE = "pixels within 2e-4 of the border tolerance (radii are rounded to 4 digits by design), larger images, NaN fraction"
M = 2e-4


def geometry(rows, cols):
    cr, cc = (rows - 1) / 2, (cols - 1) / 2
    lo, hi = min(rows, cols), max(rows, cols)
    r = ((hi if hi - lo < 2 else lo) - 1) / 2
    out = []
    for i in range(rows):
        for j in range(cols):
            y, x = cr - i, j - cc
            t = math.atan2(y, x)
            out.append((math.hypot(x, y) / r, t + 2 * math.pi if t < 0 else t))
    return out


def tolerance(rows, cols, strict):
    """Border tolerance: 0.001, in images without a central pixel 0.055 unless strict."""
    return 0.055 if not strict and ((rows % 2 == 0 and cols % 2 == 0) or abs(rows - cols) == 1) else 0.001


def crop(c, rlo, rhi, cols, lo, hi, isint=False):
    rows = c.concrete(c.int("rows", rlo, rhi))
    a = c.array("phase", (rows, cols), -100, 100, isint=isint)
    before = c.flat(a)
    f = c.real("fraction", lo, hi)
    strict = c.bool("strict")
    quiet = c.bool("suppress")
    g = geometry(rows, cols)
    eps = tolerance(rows, cols, strict)
    mask, vec = c.mod("calculations.fit_zernike_pols").crop_phases_img(a, f, quiet, strict)
    if quiet:
        c.check(not c.warnings, "no warnings when suppressed")
    c.check(tuple(c.np.shape(mask)) == (rows, cols), "shape of the mask")
    sel = []
    for k, (v, (q, t)) in enumerate(zip(c.flat(mask), g)):
        one = c.decide(v == 1)
        if one:
            c.check(f >= q - eps - M, f"pixel {k} of {rows} x {cols} at radius {q:.4f} belongs to the circle")
            sel.append(k)
        else:
            c.check(v == 0, "mask holds 0 and 1 only")
            c.check(f <= q - eps + M, f"pixel {k} of {rows} x {cols} at radius {q:.4f} does not belong to the circle")
    c.check(len(vec) == 3, "phases, radii, angles")
    for v in vec:
        c.check(tuple(c.np.shape(v)) == (len(sel),), "one phase, radius and angle per pixel of the circle")
    scale = max([1.0] + [g[k][0] for k in sel])
    for k, p, q, t in zip(sel, *(c.flat(v) for v in vec)):
        c.close(p, before[k], 1e-12, f"phase of pixel {k}")
        c.close(q, g[k][0] / scale, M, f"radius of pixel {k} of {rows} x {cols}")
        c.check(c.all([q >= 0, q <= 1]), "radius within [0, 1]")
        if g[k][0] > 0:
            c.close(t, g[k][1], 1e-9, f"angle of pixel {k} of {rows} x {cols}")
        c.check(c.all([t >= 0, t < 2 * math.pi + 1e-9]), "angle within [0, 2 pi)")
    for x, y in zip(c.flat(a), before):
        c.close(x, y, 0, "the image is not modified", 0)
    c.check(a.shape == (rows, cols), "the image keeps its shape")


def fractions(c):
    n = c.choice("size", [3, 4])
    a = c.np.ones((n, n))
    f = c.real("fraction", -1, 3)
    g = c.mod("calculations.fit_zernike_pols").crop_phases_img
    r, v = c.outcome(lambda: g(a, f, True, c.bool("strict")))
    if r == "ok":
        c.check(c.all([f >= 0.5 - 6e-5, f <= 1 + 6e-5]), "crop fraction outside [0.5, 1] is refused")
    else:
        c.check(c.any([f < 0.5, f > 1]), "crop fraction within [0.5, 1] is accepted")


def refused(c):
    g = c.mod("calculations.fit_zernike_pols").crop_phases_img
    f = c.real("fraction", 0.5, 1)
    s = c.choice("shape", [(2, 2), (2, 5), (5, 2), (1, 3), (3, 1), (9,), (3, 3, 3), (3, 3, 1), (1, 3, 3)])
    c.raises(ValueError, lambda: g(c.np.ones(s), f, True), f"image of shape {s} is refused")
    for x in ([[1.0] * 3] * 3, ((1.0,) * 3,) * 3, 3.0, "image", None):
        c.raises(ValueError, lambda: g(x, f, True), "what is no array is refused")


def tasks(tier):
    deep = tier != "quick"
    t = []
    N = 11 if deep else 7
    for cols in range(3, N + 1):
        for lo, hi in ((0.5, 0.75), (0.75, 1.0)):
            t.append(Task(crop, rlo=3, rhi=5, cols=cols, lo=lo, hi=hi, budget=400))
            for r in range(6, N + 1):
                t.append(Task(crop, rlo=r, rhi=r, cols=cols, lo=lo, hi=hi, budget=400))
    big = [(9, 9), (10, 10), (12, 11), (5, 12)] + ([(17, 17), (18, 18)] if deep else [])
    for r, cc in big:
        for lo, hi in ((0.5, 0.6), (0.6, 0.7), (0.7, 0.8), (0.8, 0.9), (0.9, 1.0)):
            t.append(Task(crop, rlo=r, rhi=r, cols=cc, lo=lo, hi=hi, budget=600))
    t += [Task(crop, rlo=3, rhi=4, cols=cc, lo=0.5, hi=1, isint=True, budget=400) for cc in (3, 4)]
    t += [Task(fractions), Task(refused)]
    return t
