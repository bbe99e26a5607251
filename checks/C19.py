"""PSF point intensity: composite trapezoidal x Simpson quadrature of the diffraction integrand, normalised by pi^2."""
import math
from run import Task

BOUNDS = ("quadrature with n_r x n_phi of 1 x 2 .. 4 x 6 (thorough 7 x 12): phase of the pupil symbolic at every node (any periodic function of the angle), one, two "
          "and three polynomials with symbolic amplitudes; integrand: amplitude -20..20, image radius 0..60, image angle 0..2 pi, all symbolic, for the order pairs with "
          "n <= 6 on a 3 x 6 grid (thorough n <= 10 on a 4 x 8 grid); constant phase: every amplitude, 20 x 36 .. 64 x 60 points")
OUTSIDE = "odd numbers of angle points (Simpson's rule is not defined for them), joblib (not installed)"
TWO_PI = 2 * math.pi


class Pupil:
    """A 'polynomial' with a free value at each node, periodic in the angle."""

    def __init__(self, c, prefix):
        self.c, self.prefix, self.v = c, prefix, {}

    def at(self, p, phi):
        phi = phi % TWO_PI
        if TWO_PI - phi < 1e-9:
            phi = 0.0
        key = f"{self.prefix}({p:.6f},{phi:.6f})"
        if key not in self.v:
            self.v[key] = self.c.real(key, -30, 30)
        return self.v[key]

    def polynomial_value(self, r, theta, use_exact_eq=False):
        np = self.c.np
        if np.ndim(r) == 0 and np.ndim(theta) == 0:
            return self.at(float(r), float(theta))
        n = max(np.size(r), np.size(theta))
        rs = list(self.c.flat(r)) if np.ndim(r) else [r] * n
        ts = list(self.c.flat(theta)) if np.ndim(theta) else [theta] * n
        return self.c.nparray([self.at(float(a), float(b)) for a, b in zip(rs, ts)])

    def get_mn_orders(self):
        return 1, 3

    def get_indices(self):
        return (1, 3), 8, 7, 6


def expected(c, phase, r, theta, nr, nphi):
    """|sum of weights * integrand|^2 / pi^2 with the definition of the two quadrature rules."""
    hp, hf = 1.0 / nr, TWO_PI / nphi
    total = 0.0
    for j in range(nphi + 1):
        phi = j * hf
        ws = hf / 3.0 * (1.0 if j in (0, nphi) else (4.0 if j % 2 else 2.0))
        for i in range(1, nr + 1):
            p = i * hp
            wt = hp * (0.5 if i == nr else 1.0)
            arg = phase(p, phi)
            if not (isinstance(r, float) and r == 0.0):
                arg = arg - r * p * (math.cos(phi) * c.cos(theta) + math.sin(phi) * c.sin(theta))
            total = total + c.cexp(arg) * (ws * wt * p)
    return (total.real * total.real + total.imag * total.imag) / math.pi ** 2


def point(c, via):
    """The point functions with one signature: (polynomials, amplitudes, r, theta, nr, nphi)."""
    m = c.mod("calculations.calc_psfs")
    if via == "pols":
        return lambda pols, am, r, t, nr, nphi: m.get_psf_point_r_pols(pols, c.nparray(am), r, t, nr, nphi)
    g = {"loop": m.get_psf_point_r, "vector": m.get_psf_point_r_parallel}[via]
    return lambda pols, am, r, t, nr, nphi: g(pols[0], r, t, am[0], nr, nphi)


def quadrature(c, via, nr, nphi, k=1):
    ps = [Pupil(c, f"phase{i}") for i in range(k)]
    am = [1.0] if k == 1 else [c.real(f"amplitude{i}", -3, 3) for i in range(k)]
    v = point(c, via)(ps, am, 0.0, 0.0, nr, nphi)

    def phase(p, phi):
        s = am[0] * ps[0].at(p, phi)
        for a, q in zip(am[1:], ps[1:]):
            s = s + a * q.at(p, phi)
        return s
    c.close(v, expected(c, phase, 0.0, 0.0, nr, nphi), 1e-9, f"intensity with {nr} x {nphi} integration points", 1e-9)


def integrand(c, via, mn, nr, nphi):
    z = c.Z.ZernPol
    pols = [z(m=m, n=n) for m, n in mn]
    ref = [z(m=m, n=n) for m, n in mn]
    am = [c.real(f"amplitude{i}", -20, 20) for i in range(len(mn))]
    r, theta = c.real("r", 0, 60), c.real("theta", 0, TWO_PI)
    v = point(c, via)(pols, am, r, theta, nr, nphi)

    def phase(p, phi):
        s = 0.0
        for a, q in zip(am, ref):
            s = s + a * q.polynomial_value(p, phi)
        return s
    c.close(v, expected(c, phase, r, theta, nr, nphi), 1e-8, f"intensity of {mn} on {nr} x {nphi} points", 1e-8)


def ideal(c, via, nr, nphi):
    """No aberration, origin: the weights sum to one."""
    a = c.real("amplitude", -20, 20)
    v = point(c, via)([c.Z.ZernPol(m=0, n=0)], [a], 0.0, 0.0, nr, nphi)
    c.close(v, 1.0, 1e-9, f"intensity of the unaberrated pupil at the origin with {nr} x {nphi} points", 1e-9)


def tasks(tier):
    th = tier == "thorough"
    t = []
    fns = ("loop", "vector", "pols")
    sizes = [(1, 2), (2, 2), (2, 4), (3, 6), (4, 6)] + ([(5, 8), (6, 10), (7, 12)] if th else [])
    for via in fns:
        t += [Task(quadrature, via=via, nr=a, nphi=b) for a, b in sizes]
        t += [Task(ideal, via=via, nr=a, nphi=b) for a, b in [(20, 36), (33, 40), (64, 60)] + ([(128, 200), (320, 300)] if th else [])]
        nmax, g = (10, (4, 8)) if th else (6, (3, 6))
        t += [Task(integrand, via=via, mn=[(m, n)], nr=g[0], nphi=g[1]) for n in range(nmax + 1) for m in range(-n, n + 1, 2)]
    t += [Task(quadrature, via="pols", nr=2, nphi=4, k=k) for k in (2, 3)]
    t += [Task(integrand, via="pols", mn=x, nr=3, nphi=4) for x in ([(1, 1), (-2, 2)], [(0, 2), (3, 3), (-1, 3)], [(0, 0), (-4, 4), (2, 4)])]
    return t
