"""Generated polar grids: cover [0, 1] and [0, 2 pi] without gaps, never leave them; surfaces come with their grid."""
from run import Task
from checks.C10 import tols, want
from checks.common import PI

BOUNDS = ("radius step: any real number in [1/100, 0.5] (thorough 1/250) and [1/401, 1/400], angle step: any real number in [0.063, pi] (thorough 0.026) and those of 480 and 700 steps, both together for steps >= 0.2 / 1.0; "
          "invalid steps: any in -5..0 and 0.5..5 / pi..20; equally sized meshes: any n in -5..64 (250 and 1000 too); surfaces on grids of symbolic steps >= 0.3 / 2.0 and n = 4..6")
OUTSIDE = "smaller steps; duplicates and one-ulp deviations caused by rounding inside numpy.arange"


def vector(c, v, step, end, what):
    v = c.flat(v)
    c.check(len(v) >= 2, f"{what}: at least two values")
    c.close(v[0], 0, 1e-12, f"{what} starts at 0")
    c.close(v[-1], end, 1e-9, f"{what} ends at {end:.4g}")
    for a, b in zip(v, v[1:]):
        c.check(a <= b, f"{what} increases")
        c.check(b - a <= step + 1e-9, f"{what}: no gap larger than the step")
    for a in v:
        c.check(c.all([a >= 0, a <= end]), f"{what} stays within its range")


def radius(c, lo, hi):
    s = c.real("step", lo, hi)
    g = c.Z.ZernPol.gen_polar_coordinates(r_step=s, theta_rad_step=c.choice("theta_step", [0.5, 1.0, PI]))
    vector(c, g.R, s, 1.0, "R")
    c.check(not c.any([a == b for a, b in zip(c.flat(g.R), c.flat(g.R)[1:])]) if c.symbolic else True, "R increases strictly (in real arithmetic)")


def angle(c, lo, hi):
    t = c.real("step", lo, hi)
    g = c.Z.ZernPol.gen_polar_coordinates(r_step=c.choice("r_step", [0.1, 0.3, 0.5]), theta_rad_step=t)
    vector(c, g.Theta, t, 2 * PI, "Theta")


def both(c):
    s, t = c.real("r_step", 0.2, 0.5), c.real("theta_step", 1.0, PI)
    g = c.Z.ZernPol.gen_polar_coordinates(s, t)
    c.check(len(g) == 2, "two vectors")
    vector(c, g[0], s, 1.0, "R")
    vector(c, g[1], t, 2 * PI, "Theta")


def invalid(c, lo, hi, tlo, thi):
    s, t = c.real("r_step", lo, hi), c.real("theta_step", tlo, thi)
    ok = c.all([s > 0, s <= 0.5, t > 0, t <= PI])
    r, g = c.outcome(lambda: c.Z.ZernPol.gen_polar_coordinates(s, t))
    c.check(ok if r == "ok" else c.neg(ok), "exactly the steps in (0, 0.5] and (0, pi] are accepted")


def mesh(c, lo, hi):
    n = c.concrete(c.int("n", lo, hi))
    g = c.Z.ZernPol.gen_equal_polar_mesh(n)
    k = max(n, 4)
    R, T = c.flat(g.R), c.flat(g.Theta)
    c.check(len(R) == k and len(T) == k, "requested number of points, at least 4")
    for i in range(k):
        c.close(R[i], i / (k - 1), 1e-9, "evenly spaced radii")
        c.close(T[i], 2 * PI * i / (k - 1), 1e-9, "evenly spaced angles")
        c.check(0 <= R[i] <= 1 and 0 <= T[i] <= 2 * PI, "mesh stays within the unit disk")


def defaults(c):
    g = c.Z.ZernPol.gen_polar_coordinates()
    vector(c, g.R, 0.01, 1.0, "R")
    vector(c, g.Theta, PI / 240 + 1e-7, 2 * PI, "Theta")
    g = c.Z.ZernPol.gen_equal_polar_mesh()
    c.check(len(c.flat(g.R)) == 250 and len(c.flat(g.Theta)) == 250, "default number of points")
    x = c.real("x", 0, 1)
    c.check(x >= 0, "reached")


def surface(c, ps, equal):
    Z = c.Z.ZernPol
    pols = [Z(m=m, n=n) for m, n in ps]
    a = [c.real(f"a{i}", 0.1, 5) for i in range(len(ps))]
    if equal:
        n = c.concrete(c.int("n", 4, 6))
        s = Z.gen_zernikes_surface(a, pols, equal_n_coordinates=True, n_points=n)
        g = Z.gen_equal_polar_mesh(n)
    else:
        x, y = c.real("r_step", 0.3, 0.5), c.real("theta_step", 2.0, PI)
        s = Z.gen_zernikes_surface(a, pols, r_step=x, theta_rad_step=y)
        g = Z.gen_polar_coordinates(x, y)
    R, T = c.flat(g.R), c.flat(g.Theta)
    for u, v in ((s.R, g.R), (s.Theta, g.Theta)):
        c.check(len(c.flat(u)) == len(c.flat(v)), "size of the vectors of the surface")
        for p, q in zip(c.flat(u), c.flat(v)):
            c.close(p, q, 1e-9, "the surface comes with the grid of its steps")
    c.check(tuple(c.np.shape(s.ZernSurf)) == (len(R), len(T)), "shape of the surface")
    v = c.flat(s.ZernSurf)
    for j, r in enumerate(R):
        for k, th in enumerate(T):
            c.close(v[j * len(T) + k], want(c, ps, a, r, th), tols(ps), "surface value at its own radius and angle")


def tasks(tier):
    deep = tier != "quick"
    ks = range(2, 250 if deep else 100)
    t = [Task(radius, lo=f"1/{k + 1}", hi=f"1/{k}", budget=300) for k in ks]
    for x in t:
        x.kw = {k: float(__import__("fractions").Fraction(v)) for k, v in x.kw.items()}
    ks = range(2, 250 if deep else 100)
    t += [Task(angle, lo=2 * PI / (k + 1), hi=2 * PI / k if k > 2 else PI, budget=300, name=f"angle({k} steps)") for k in ks]
    t += [Task(radius, lo=1 / (k + 1), hi=1 / k, budget=300) for k in (400,)]
    t += [Task(angle, lo=2 * PI / (k + 1), hi=2 * PI / k, budget=300, name=f"angle({k} steps)") for k in (480, 700)]
    t += [Task(both, budget=200), Task(defaults), Task(mesh, lo=-5, hi=64), Task(mesh, lo=250, hi=251), Task(mesh, lo=1000, hi=1000)]
    for k, (a, b, d, e) in enumerate([(-5, 0, 1, 4), (0.2, 5, -5, 0), (0.2, 5, 1, 20), (-5, 0, -5, 0)]):
        t.append(Task(invalid, lo=a, hi=b, tlo=d, thi=e, budget=100))
    for ps in (((0, 0),), ((1, 1), (0, 2)), ((-2, 2), (3, 5))):
        t += [Task(surface, ps=ps, equal=e, budget=200) for e in (True, False)]
    return t
