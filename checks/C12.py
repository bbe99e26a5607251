"""Every pixel of a generated phase image holds the sum at its own polar coordinates."""
import math
from run import Task
from checks.C10 import tols, want

SETS = [((0, 0),), ((1, 1), (-1, 1)), ((-2, 2), (2, 2), (0, 4)), ((-1, 3), (0, 0), (3, 5)), ((-5, 7),), ((-13, 13), (0, 2))]
BOUNDS = ("image sizes 1..11 x 1..11, 16 x 3, 3 x 16, 12 x 9, 13 x 13 (thorough: 1..20 x 1..20, 31 x 31), chosen by symbolic integers; 6 sets of polynomials; "
          "amplitudes: any real in -5..5")
OUTSIDE = "larger images (the code has no size-dependent branch besides the parity of the sizes)"


def pixel(h, w, i, j):
    """(radius, angle) of a pixel or None outside."""
    y, x = h // 2 - i, j - w // 2
    R = 1 + min(h, w) // 2
    d = math.sqrt(x * x + y * y)
    if d > R:
        return None
    t = math.atan2(y, x)
    return d / R, t + 2 * math.pi if t < 0 else t


def image_matches(c, img, h, w, ps, a, tol):
    c.check(tuple(c.np.shape(img)) == (h, w), "shape of the image is (height, width)")
    v = c.flat(img)
    for i in range(h):
        for j in range(w):
            q = pixel(h, w, i, j)
            if q is None:
                c.close(v[i * w + j], 0, 0, f"pixel ({i}, {j}) of {h} x {w} outside the circle is zero", 0)
            else:
                c.close(v[i * w + j], want(c, ps, a, *q), tol, f"pixel ({i}, {j}) of {h} x {w} holds the sum at its own coordinates")


def image(c, ps, hlo, hhi, wlo, whi, seq=tuple):
    h, w = c.concrete(c.int("height", hlo, hhi)), c.concrete(c.int("width", wlo, whi))
    pols = seq(c.Z.ZernPol(m=m, n=n) for m, n in ps)
    a = [c.real(f"a{i}", -5, 5) for i in range(len(ps))]
    amp = seq(a)
    img = c.Z.generate_phases_image(pols, amp, img_width=w, img_height=h)
    image_matches(c, img, h, w, ps, a, tols(ps))
    c.check(len(pols) == len(ps) and len(amp) == len(ps), "inputs keep their length")


def positional(c):
    """Keywords and positions name the same arguments."""
    Z = c.Z.ZernPol
    a = [c.real("a0", -5, 5), c.real("a1", -5, 5)]
    ps = ((1, 1), (-2, 2))
    pols = (Z(m=1, n=1), Z(m=-2, n=2))
    x = c.Z.generate_phases_image(pols, tuple(a), 5, 4)
    image_matches(c, x, 4, 5, ps, a, tols(ps))
    y = c.Z.generate_phases_image(polynomials_amplitudes=tuple(a), polynomials=pols, img_height=6, img_width=3)
    image_matches(c, y, 6, 3, ps, a, tols(ps))
    c.raises(ValueError, lambda: c.Z.generate_phases_image(pols, (a[0],), 4, 4), "different numbers of polynomials and amplitudes are refused")
    c.raises(ValueError, lambda: c.Z.generate_phases_image((), (), 4, 4), "no polynomials are refused")


def tasks(tier):
    deep = tier != "quick"
    N = 20 if deep else 11
    t = []
    for k, ps in enumerate(SETS):
        for h in range(1, N + 1):
            t.append(Task(image, ps=ps, hlo=h, hhi=h, wlo=1, whi=N, seq=(tuple, list)[(h + k) % 2], name=f"image({ps}, height {h}, width 1..{N})", budget=300))
        for h, w in ((16, 3), (3, 16), (12, 9), (13, 13)) + (((31, 31),) if deep else ()):
            t.append(Task(image, ps=ps, hlo=h, hhi=h, wlo=w, whi=w, name=f"image({ps}, {h} x {w})", budget=300))
    t.append(Task(positional))
    return t
