"""Plots show the surface at its own polar coordinates, on the given figure, and kernels as they are stored."""
import collections
import math

from run import Task
from checks.C10 import tols, want

BOUNDS = ("given surfaces 2..4 x 2..4 (thorough ..6 x 6), every value, radius and angle free; default plots (101 x 361 and 250 x 250 points, every 307th compared, thorough every 61st) of 4 sets of polynomials and "
          "of single ones, up to two coefficients free; own polar coordinates 3 x 2 and 3 x 3, free; every colour map of a list of 5, colour bar on and off, '2d', '2D', '3d', '3D', omitted; "
          "kernels 1 x 1 .. 4 x 3 with every value free")
OUTSIDE = "what matplotlib does with the drawn values (the stand-in records the calls, replays record them on the real one); the unused private half-pyramid plot; windows on a screen"
MAPS = ("coolwarm", "viridis", "jet", "turbo", "rainbow")
THREE = ("3d", "3D")
Surface = collections.namedtuple("ZernikesSurface", "ZernSurf R Theta")
Polar = collections.namedtuple("PolarVectors", "R Theta")


def grid(c, d):
    """The drawn points as three flat lists."""
    z = c.np.shape(d.z)
    c.check(len(z) == 2, "a two-dimensional surface is drawn")
    def full(v, axis):
        f = list(c.flat(v))
        if len(c.np.shape(v)) == 2:
            c.check(tuple(c.np.shape(v)) == tuple(z), "coordinates have the shape of the surface")
            return f
        c.check(len(f) == z[axis], "coordinate vectors fit the surface")
        return [f[(i, j)[axis]] for i in range(z[0]) for j in range(z[1])]
    return full(d.x, 1), full(d.y, 0), list(c.flat(d.z))


def content(c, fig, three, cmap, bar=None):
    s = c.book.of(fig)
    c.check(len(s.drawings) == 1, "exactly one surface is on the figure")
    d = s.drawings[0]
    c.check((d.kind, d.axes) == (("surface", "3d") if three else ("mesh", "polar")), "the kind of the plot")
    c.check(d.cmap == cmap, "the given colour map is used")
    if bar is not None:
        c.check(bool(s.colorbars) == bar and all(b is d for b in s.colorbars), "the colour bar is shown if and only if it is requested")
    return d, s


def shows(c, d, three, R, T, S, what):
    """The drawing shows the values S (row-major) over radii R and angles T."""
    x, y, z = grid(c, d)
    c.check(tuple(c.np.shape(d.z)) == (len(R), len(T)), f"{what}: shape")
    for i in range(len(R)):
        for j in range(len(T)):
            e = i * len(T) + j
            c.close(z[e], S[e], 0, f"{what}: value at ({i}, {j})", 0)
            if three:
                c.close(x[e], R[i] * c.cos(T[j]), 1e-12, f"{what}: x at ({i}, {j})", 1e-9)
                c.close(y[e], R[i] * c.sin(T[j]), 1e-12, f"{what}: y at ({i}, {j})", 1e-9)
            else:
                c.close(x[e], T[j], 0, f"{what}: angle at ({i}, {j})", 0)
                c.close(y[e], R[i], 0, f"{what}: radius at ({i}, {j})", 0)


def vectors(c, nr, nt):
    """Increasing free radii and angles."""
    R = [c.real(f"r{i}", i / nr, (i + 1) / nr) for i in range(nr)]
    T = [c.real(f"t{j}", 6.28 * j / nt, 6.28 * (j + 1) / nt) for j in range(nt)]
    return R, T


def given(c, proj, nr, nt):
    """A surface calculated beforehand on a figure that shows something else."""
    three = proj in THREE
    R, T = vectors(c, nr, nt)
    S = c.array("s", (nr, nt), -10, 10)
    bar, cmap = c.bool("range"), c.choice("map", MAPS)
    bar = bool(bar)
    fig = c.figure()
    other = c.choice("before", ["nothing", "2d", "3d"])
    plot = c.Z.ZernPol.plot_sum_zernikes_on_fig
    if other != "nothing":
        old = Surface(c.np.asarray([[1.0, 2.0], [3.0, 4.0], [0.0, 1.0]]), c.np.asarray([0.0, 0.5, 1.0]), c.np.asarray([0.0, 3.0]))
        c.check(plot(fig, use_defaults=False, zernikes_sum_surface=old, projection=other, show_range=c.choice("bar before", [True, False])) is fig, "the same figure is returned")
    s0 = list(c.flat(S))
    kw = {} if proj is None else {"projection": proj}
    out = plot(fig, use_defaults=False, zernikes_sum_surface=Surface(S, c.nparray(R), c.nparray(T)), show_range=bar, color_map=cmap, **kw)
    c.check(out is fig, "the same figure is returned")
    d, _ = content(c, fig, three, cmap, bar)
    shows(c, d, three, R, T, s0, "given surface")
    c.closes(c.flat(S), c.nparray(s0), 0, "the surface is not modified")


def generated(c, proj, ps, equal):
    """The surface of gen_zernikes_surface() drawn with its own vectors."""
    three = proj in THREE
    pols = [c.Z.ZernPol(m=m, n=n) for m, n in ps]
    a = [c.real(f"a{i}", -5, 5) for i in range(len(ps))]
    surf = c.Z.ZernPol.gen_zernikes_surface(a, pols, **(dict(equal_n_coordinates=True, n_points=6) if equal else dict(r_step=0.25, theta_rad_step=1.0)))
    fig = c.figure()
    out = c.Z.ZernPol.plot_sum_zernikes_on_fig(fig, use_defaults=False, zernikes_sum_surface=surf, projection=proj)
    c.check(out is fig, "the same figure is returned")
    d, s = content(c, fig, three, "coolwarm", True)
    polynomial_surface(c, d, three, ps, a)


def polynomial_surface(c, d, three, ps, a, step=1):
    """Every step-th drawn value (and the first row and column) is the sum at the drawn point; the points cover the unit circle."""
    x, y, z = grid(c, d)
    nr, nt = c.np.shape(d.z)
    x, y = [float(v) for v in x], [float(v) for v in y]
    t = tols(ps)
    rs, ts = [], []
    for e in range(nr * nt):
        r, th = (math.hypot(x[e], y[e]), math.atan2(y[e], x[e])) if three else (y[e], x[e])
        rs.append(r), ts.append(th % (2 * math.pi))
        if e % step == 0 or e % nt == 0 and e // nt % 25 == 0:
            c.close(z[e], want(c, ps, a, r, th), t, f"value {e} is the sum at its own point")
    c.check(min(rs) < 1e-9 and abs(max(rs) - 1) < 1e-9, "radii from 0 to 1 are shown")
    u = sorted(set(round(v, 6) for v in ts))
    c.check(max([q - p for p, q in zip(u, u[1:])] + [u[0] + 2 * math.pi - u[-1]]) < 1.3, "all angles are shown")


def defaults(c, proj, ps, seq, step):
    three = proj in THREE
    pols = seq(c.Z.ZernPol(m=m, n=n) for m, n in ps)
    a = [c.real(f"a{i}", -5, 5) if i < 2 else 0.75 - i for i in range(len(ps))]
    fig = c.figure()
    bar = len(ps) % 2 == 1
    kw = {} if proj is None else {"projection": proj}
    out = c.Z.ZernPol.plot_sum_zernikes_on_fig(fig, seq(a), pols, show_range=bar, **kw)
    c.check(out is fig, "the same figure is returned")
    d, _ = content(c, fig, three, "coolwarm", bar)
    polynomial_surface(c, d, three, ps, a, step)


def profile(c, proj, m, n, how):
    """A single polynomial: coefficient 1.0, its name as the title (2-D only)."""
    three = proj in THREE
    p = c.Z.ZernPol(m=m, n=n)
    title, cmap = bool(c.bool("title")), c.choice("map", MAPS[:2])
    kw = {} if proj is None else {"projection": proj}
    if how == "own":
        R, T = vectors(c, 3, 3 if m % 2 else 2)
        kw.update(use_defaults=False, polar_coordinates=Polar(c.nparray(R), c.nparray(T)))
    c.book
    c.Z.ZernPol.plot_profile(p, cmap, title, **kw)
    c.check(len(c.book.figures) == 1 and c.book.shown >= 1, "one figure is made and shown")
    d, s = content(c, c.book.figures[0], three, cmap)
    if how == "own":
        S = [want(c, ((m, n),), [1.0], r, t) for r in R for t in T]
        x, y, z = grid(c, d)
        c.check(tuple(c.np.shape(d.z)) == (len(R), len(T)), "shape of the surface")
        for e, v in enumerate(S):
            c.close(z[e], v, tols(((m, n),)), f"value {e} of the profile")
            r, t = R[e // len(T)], T[e % len(T)]
            c.close(x[e], r * c.cos(t) if three else t, 1e-12, f"first coordinate {e}", 1e-9)
            c.close(y[e], r * c.sin(t) if three else r, 1e-12, f"second coordinate {e}", 1e-9)
    else:
        polynomial_surface(c, d, three, ((m, n),), [1.0], 3)
    if not three:
        c.check([x for x in s.titles if x] == ([p.get_polynomial_name()] if title and p.get_polynomial_name() else []), "the name is the title if it is requested")


def refused(c, what):
    fig = c.figure()
    p = c.Z.ZernPol(m=0, n=2)
    plot = c.Z.ZernPol.plot_sum_zernikes_on_fig
    before = [len(c.book.figures)]
    v = c.nparray([c.real("r0", 0, 0.5), c.real("r1", 0.5, 1)])
    a = c.real("a", -5, 5)
    call = {"nothing": lambda: plot(fig), "empty": lambda: plot(fig, [], []), "no surface": lambda: plot(fig, [a], [p], use_defaults=False),
            "short surface": lambda: plot(fig, use_defaults=False, zernikes_sum_surface=(v, v)), "long surface": lambda: plot(fig, use_defaults=False, zernikes_sum_surface=(v, v, v, v)),
            "lengths": lambda: plot(fig, [a, a], [p]), "no coefficients": lambda: plot(fig, [], [p]),
            "no coordinates": lambda: c.Z.ZernPol.plot_profile(p, use_defaults=False),
            "short coordinates": lambda: c.Z.ZernPol.plot_profile(p, use_defaults=False, polar_coordinates=(v,)),
            "long coordinates": lambda: c.Z.ZernPol.plot_profile(p, use_defaults=False, projection="3d", polar_coordinates=(v, v, v)),
            "outside": lambda: c.Z.ZernPol.plot_profile(p, use_defaults=False, polar_coordinates=Polar(v + 0.75, v))}[what]
    c.raises(ValueError, call, f"{what} is refused")
    c.check(all(not c.book.of(f).drawings for f in c.book.figures) and not c.book.shown, "nothing is drawn")


def kernel(c, h, w, several):
    """plot_kernel() shows the stored kernel."""
    p = c.Z.ZernPol(m=-1, n=3)
    psf = c.mod("zernpsf").ZernPSF([p, c.Z.ZernPol(m=0, n=2)] if several else p)
    k = c.array("k", (h, w), 0, 1)
    psf.kernel = k
    k0 = list(c.flat(k))
    c.book
    psf.plot_kernel(c.choice("id", ["", "first"]))
    images(c, [(h, w, k0)])
    c.closes(c.flat(psf.kernel), c.nparray(k0), 0, "the kernel is not modified")


def images(c, expected):
    figs = [f for f in c.book.figures if c.book.of(f).drawings]
    c.check(len(figs) == len(expected), "number of figures with images")
    for f, (h, w, v) in zip(figs, expected):
        ds = c.book.of(f).drawings
        c.check(len(ds) == 1 and ds[0].kind == "image" and ds[0].origin in ("upper", None) and ds[0].extent is None, "one image, first row on top")
        c.check(tuple(c.np.shape(ds[0].z)) == (h, w), "shape of the image")
        c.closes(c.nparray(list(c.flat(ds[0].z))), c.nparray(list(v)), 0, "the shown image")


def convolution(c, radius, top):
    """visualize_convolution() shows the sample disk and its convolution with the kernel of this object."""
    psf = c.mod("zernpsf").ZernPSF(c.Z.ZernPol(m=-1, n=3))
    k = [[0.0, 0.25, 0.5], [0.125, 1.0, 0.25], [0.0, 0.75, 0.0]]
    free = c.real("k", 0, 1)
    k[0][0] = free
    psf.kernel, psf.kernel_size = c.nparray(k), 3
    disk = c.mod("calculations.calc_psfs").get_bumped_circle(radius, top)
    want = psf.convolute_img(image=disk)
    c.book
    psf.visualize_convolution(radius, top)
    n = c.np.shape(disk)[0]
    images(c, [(n, n, list(c.flat(disk))), (n, n, list(c.flat(want)))])


SETS = [((0, 2),), ((1, 1), (-1, 1)), ((-2, 2), (2, 2), (-1, 3)), ((0, 0), (-3, 5), (4, 4), (1, 7))]


def tasks(tier):
    deep = tier != "quick"
    t = []
    N = 6 if deep else 4
    for proj in ("2d", "2D", None, "3d", "3D"):
        for nr in range(2, N + 1):
            for nt in range(2, N + 1):
                if proj in ("2d", "3d") or (nr, nt) in ((2, 3), (3, 3)):
                    t.append(Task(given, proj=proj, nr=nr, nt=nt, budget=120))
    for proj in ("2d", "3d"):
        for ps in SETS:
            for equal in (False, True):
                t.append(Task(generated, proj=proj, ps=ps, equal=equal))
    for k, ps in enumerate(SETS):
        for proj in ("2d", "3d") if deep or k in (1, 2) else ((None, "3D")[k % 2],):
            t.append(Task(defaults, proj=proj, ps=ps, seq=(list, tuple)[k % 2], step=61 if deep else 307, budget=300, name=f"defaults({proj}, {ps})"))
    for m, n in ((0, 0), (-1, 1), (2, 2), (-1, 3), (3, 5), (0, 8), (-9, 9)):
        for proj in ("2d", "3d"):
            t.append(Task(profile, proj=proj, m=m, n=n, how="own"))
    for proj, m, n in ((None, -1, 3), ("2D", 0, 4), ("3d", 2, 4), ("3D", -9, 9)):
        t.append(Task(profile, proj=proj, m=m, n=n, how="default", budget=300))
    t += [Task(refused, what=w) for w in ("nothing", "empty", "no surface", "short surface", "long surface", "lengths", "no coefficients", "no coordinates", "short coordinates",
                                         "long coordinates", "outside")]
    t += [Task(kernel, h=h, w=w, several=s) for h, w, s in ((1, 1, False), (3, 3, True), (3, 3, False), (4, 3, False))]
    t += [Task(convolution, radius=r, top=m) for r, m in ((1.0, 255), (1.5, 1000))]
    return t
