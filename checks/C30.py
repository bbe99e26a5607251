"""The sample disk used for showing the convolution."""
import math
from run import Task

BOUNDS = ("radius any real number in -3..3.4 (thorough: ..5.4) with fixed maximum intensities (7, 200, 255, 256, 4000), radii on a grid of 0.5 .. 6.2 (thorough 12.2) with every integer maximum intensity 1..65535")
OUTSIDE = "intensities above 65535 (no image type for them) or below 1, larger disks"


def properties(c, img, radius, top, size, values=True):
    c.check(tuple(c.np.shape(img)) == (size, size), "side of the image is 4 round(radius) + 1")
    v = [[img[i, j] for j in range(size)] for i in range(size)]
    o = size // 2
    c.check(v[o][o] == top, "maximum intensity in the centre")
    ring = {}
    for i in range(size):
        for j in range(size):
            d2 = (i - o) ** 2 + (j - o) ** 2
            if d2 in ring:
                c.check(v[i][j] == ring[d2], f"pixel {i}, {j}: the same intensity at the same distance")
            else:
                ring[d2] = v[i][j]
    keys = sorted(ring)
    for a, b in zip(keys, keys[1:]):
        if values:
            c.check(ring[b] <= ring[a], f"intensity does not increase with the distance (from {a ** 0.5:.3f} to {b ** 0.5:.3f})")
    for q in keys:
        d = math.sqrt(q)
        c.check(c.all([ring[q] >= 0, ring[q] <= top]), "intensities between zero and the maximum")
        zero = d >= radius * 1.25 + 1e-5 if isinstance(radius, (int, float)) and values else None
        if zero is None:
            c.check(c.any([d < radius * 1.25 + 1e-5, ring[q] == 0]), f"no intensity at distance {d:.3f} beyond 1.25 radii")
            c.check(c.any([d > radius * 0.25 - 1e-5, ring[q] == top]), f"maximum intensity at distance {d:.3f} within a quarter of the radius")
        else:
            if zero:
                c.check(ring[q] == 0, f"no intensity at distance {d:.3f} beyond 1.25 radii")
            if d <= 0.5 * radius and values:
                c.check(ring[q] >= top * 0.99 - 0.5, f"nearly full intensity at distance {d:.3f} within half of the radius")


def intensity(c, radius, lo, hi):
    g = c.mod("calculations.calc_psfs").get_bumped_circle
    top = c.int("max_intensity", lo, hi)
    img = g(radius, top)
    c.check(str(img.dtype) == ("uint8" if hi <= 255 else "uint16"), "image type")
    r = max(radius, 1.0)
    properties(c, img, r, top, 4 * round(r) + 1)


def radii(c, lo, hi, top, default):
    g = c.mod("calculations.calc_psfs").get_bumped_circle
    r = c.real("radius", lo, hi)
    img = g(r) if default else g(r, top)
    c.check(str(img.dtype) == ("uint8" if top <= 255 else "uint16"), "image type")
    r = c.ite(r < 1, 1.0, r)
    size = c.np.shape(img)[0]
    k = (size - 1) // 4
    c.check(size == 4 * k + 1, "side of the image is 4 round(radius) + 1")
    c.check(c.all([k - 0.5 <= r, r <= k + 0.5]), "side of the image is 4 round(radius) + 1")
    properties(c, img, r, top, size, values=False)


def tasks(tier):
    deep = tier != "quick"
    t = []
    for q in [0.5, 1.0, 1.3, 1.5, 2.0, 2.5, 2.7, 3.0, 3.5, 4.0, 4.4, 5.0, 6.2] + ([7.5, 8.0, 9.1, 10.5, 12.2] if deep else []):
        t += [Task(intensity, radius=q, lo=a, hi=b, budget=100) for a, b in ((1, 255), (256, 65535))]
    lims = [-3, 1] + [x / 5 for x in range(6, 28 if deep else 18)]
    for i, (lo, hi) in enumerate(zip(lims, lims[1:])):
        t.append(Task(radii, lo=lo, hi=hi, top=255, default=True, budget=200))
        t.append(Task(radii, lo=lo, hi=hi, top=(7, 200, 256, 4000)[i % 4], default=False, budget=200))
    return t
