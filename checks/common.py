"""Reference definitions (written from the literature, independent of the code under test)."""
from fractions import Fraction
from math import factorial, pi, sqrt

PI = pi


def pairs(nmax, nmin=0):
    """All (m, n) of orders nmin..nmax."""
    return [(m, n) for n in range(nmin, nmax + 1) for m in range(-n, n + 1, 2)]


def radial_coeffs(n, m):
    """{power: coefficient} of the radial polynomial R_n^|m|."""
    m = abs(m)
    out = {}
    for k in range((n - m) // 2 + 1):
        out[n - 2 * k] = (-1) ** k * factorial(n - k) // (
            factorial(k) * factorial((n + m) // 2 - k) * factorial((n - m) // 2 - k))
    return out


def deriv(cs):
    return {k - 1: k * c for k, c in cs.items() if k}


def norm_factor(n, m):
    return sqrt(n + 1) if m == 0 else sqrt(2 * (n + 1))


def noll_of(m, n):
    """Noll 1976: even indices for cosine terms (m > 0), odd for sine terms."""
    a = n * (n + 1) // 2 + abs(m)
    if (m > 0 and n % 4 in (0, 1)) or (m < 0 and n % 4 in (2, 3)):
        return a
    return a + 1


def osa_of(m, n):
    return (n * (n + 2) + m) // 2


def fringe_of(m, n):
    return (1 + (n + abs(m)) // 2) ** 2 - 2 * abs(m) + (1 if m < 0 else 0)


def mn_of_osa(j):
    n = 0
    while (n + 1) * (n + 2) // 2 <= j:
        n += 1
    return 2 * j - n * (n + 2), n


def mn_of_noll(j):
    n = 0
    while (n + 1) * (n + 2) // 2 < j:
        n += 1
    for m in range(-n, n + 1, 2):
        if noll_of(m, n) == j:
            return m, n
    raise AssertionError(j)


def mn_of_fringe(j):
    """Inverse of the fringe numbering (every j >= 1 belongs to exactly one pair)."""
    s = 0  # (n + |m|) / 2
    while (s + 1) ** 2 < j:
        s += 1
    d = (s + 1) ** 2 - j  # = 2|m| - [m < 0]
    am = (d + 1) // 2
    m = -am if d % 2 else am
    return m, 2 * s - am


def angular(c, m, theta):
    """cos(m theta) for m >= 0, sin(|m| theta) for m < 0."""
    if m == 0:
        return 1.0
    return c.cos(theta * m) if m > 0 else c.sin(theta * (-m))


def angular_d(c, m, theta):
    if m == 0:
        return 0.0
    return c.sin(theta * m) * (-m) if m > 0 else c.cos(theta * (-m)) * (-m)


def znorm(c, m, n, r, theta):
    """Normalised Zernike value by definition."""
    return c.poly(radial_coeffs(n, m), r) * angular(c, m, theta) * norm_factor(n, m)


def blocks(lo, hi, size):
    return [(a, min(a + size - 1, hi)) for a in range(lo, hi + 1, size)]


def memo_radial(c):
    """Symbolic runs only: the three-fold recursions above n = 40 are evaluated once per (m, n) and radius.

    Each level still executes the real code; sharing is sound because the recursive functions have no other inputs
    (C09 decides that no call changes later results). The replay on the real code does without.
    """
    if not c.symbolic:
        return
    mod = c.mod("calculations.calc_zernike_pol")
    cache = {}

    def wrap(name, f):
        def g(*a, **k):
            if len(a) == 2 and not k and type(a[0]) is tuple and all(type(v) is int for v in a[0]) and not hasattr(a[1], "shape"):
                key = (name, a[0], id(a[1]))
                if key not in cache:
                    cache[key] = (f(*a), a[1])
                return cache[key][0]
            return f(*a, **k)
        return g

    for name in ("radial_polynomial", "radial_derivative", "radial_polynomial_coeffs", "radial_polynomial_coeffs_dr"):
        f = getattr(mod, name, None)
        if callable(f):
            c.patch(mod, name, wrap(name, f))
