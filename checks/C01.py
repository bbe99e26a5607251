"""OSA / Noll / Fringe index of every valid (m, n): definition and uniqueness."""
from run import Task

BOUNDS = "radial orders 0..54, all azimuthal orders with n-|m| even and |m|<=n, as symbolic integers (no enumeration)"
OUTSIDE = "orders above 54 (not constructible), inputs that are no valid order pair"


def _pair(c, s, nmax):
    n = c.int("n" + s, 0, nmax)
    m = c.int("m" + s, -nmax, nmax)
    k = c.int("k" + s, 0, nmax)
    c.assume(n - m == k * 2)  # parity
    c.assume(m <= n)
    c.assume(-n <= m)
    return m, n


def definition(c, nlo, nhi):
    m, n = _pair(c, "", nhi)
    c.assume(n >= nlo)
    Z = c.Z.ZernPol
    am = c.ite(m < 0, -m, m)
    c.check(Z.get_osa_index(m, n) * 2 == n * (n + 2) + m, "OSA index is (n(n+2)+m)/2")
    noll = Z.get_noll_index(m, n)
    plus0 = c.any([c.all([m > 0, c.any([n % 4 == 0, n % 4 == 1])]), c.all([m < 0, c.any([n % 4 == 2, n % 4 == 3])])])
    c.check(noll * 2 == n * (n + 1) + am * 2 + c.ite(plus0, 0, 2), "Noll index is n(n+1)/2+|m|+{0,1}")
    f = Z.get_fringe_index(m, n)
    s = (n + am + 2)
    c.check(f * 4 == s * s - am * 8 + c.ite(m < 0, 4, 0), "Fringe index is (1+(n+|m|)/2)^2-2|m|+[m<0]")
    for v in (Z.get_osa_index(m, n), noll, f):
        c.check(isinstance(v, c.int_types), "index is a plain integer")


def decodable(c, nlo, nhi):
    """The three indices determine the polynomial: each index lies in its own block and gives the position inside it."""
    m, n = _pair(c, "", nhi)
    c.assume(n >= nlo)
    Z = c.Z.ZernPol
    am = c.ite(m < 0, -m, m)
    o, j, f = Z.get_osa_index(m, n), Z.get_noll_index(m, n), Z.get_fringe_index(m, n)
    c.check(c.all([o * 2 >= n * (n + 1), o * 2 <= n * (n + 3)]), "OSA indices of order n fill their own block")
    c.check(c.all([j * 2 > n * (n + 1), j * 2 <= (n + 1) * (n + 2)]), "Noll indices of order n fill their own block")
    c.check(c.any([m == 0, (j % 2 == 0) == (m > 0)]), "Noll index is even exactly for the cosine terms (m > 0)")
    s = n + am  # = 2 * (n + |m|) / 2
    c.check(c.all([f * 4 > s * s, f * 4 <= (s + 2) * (s + 2)]), "Fringe indices of equal n+|m| fill their own block")


def tasks(tier):
    step = 11 if tier == "quick" else 5
    rng = [(a, min(a + step - 1, 54)) for a in range(0, 55, step)]
    return [Task(f, nlo=a, nhi=b) for a, b in rng for f in (definition, decodable)]
