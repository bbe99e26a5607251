"""crop_kernel: frames below the threshold share of the maximum are removed, nothing else."""
from run import Task
from checks.C20 import physical, stubs, build

BOUNDS = ("kernels 5 x 5, 7 x 7 and 9 x 9 (thorough up to 15 x 15) with every entry free in 0..1000 and the threshold free in 0..0.5, cropped once and (with 0.2) twice; kernels 1 x 1 and "
          "3 x 3 and the uncalculated default; thresholds -2..0 and 0.5..3; one kernel computed by the library from free point intensities before cropping with 0.15")
OUTSIDE = "kernels with negative entries or without intensity; a border exactly at the threshold (either outcome is accepted)"
EPS = 1e-9


def make(c, size):
    psf = c.mod("zernpsf").ZernPSF(c.Z.ZernPol(m=0, n=2))
    psf.kernel = c.array("k", (size, size), 0, 1000)
    psf.kernel_size = size
    return psf


def frame(f, size, s):
    return [f[i * size + j] for i in range(s, size - s) for j in range(s, size - s) if i in (s, size - 1 - s) or j in (s, size - 1 - s)]


def verify(c, psf, f, size, mx, t, name):
    """The kernel f (flat) of the given size was cropped with threshold t; returns the new flat kernel and its size."""
    k = psf.kernel
    sh = tuple(c.np.shape(k))
    c.check(len(sh) == 2 and sh[0] == sh[1] and sh[0] % 2 == 1 and sh[0] <= size, f"{name}: a square kernel of odd size, not larger than before")
    c.check(psf.kernel_size == sh[0], f"{name}: reported size")
    s = (size - sh[0]) // 2
    want = [f[i * size + j] for i in range(s, size - s) for j in range(s, size - s)]
    c.closes(c.flat(k), c.nparray(want), 0, f"{name}: the values of the central part are kept")
    lim = t * mx
    for q in range(s):
        c.check(c.all([v <= lim * (1 + EPS) for v in frame(f, size, q)]), f"{name}: removed frame {q} is below the threshold")
    if sh[0] > 1:
        c.check(c.any([v >= lim * (1 - EPS) for v in frame(f, size, s)]), f"{name}: the outer frame that is left is not below the threshold")
    return want, sh[0]


def crop(c, size, twice=False):
    psf = make(c, size)
    f = list(c.flat(psf.kernel))
    t = c.real("t", 1e-4, 0.4999)
    mx = c.max(f)
    c.assume(mx >= 1e-3)
    psf.crop_kernel(t)
    g, n = verify(c, psf, f, size, mx, t, "cropping")
    if twice and n > 3:
        t2 = 0.2
        psf.crop_kernel(min_part_of_max=t2)
        verify(c, psf, g, n, mx, t2, "second cropping")


def default(c, size):
    psf = make(c, size)
    f = list(c.flat(psf.kernel))
    mx = c.max(f)
    c.assume(mx >= 1e-3)
    psf.crop_kernel()
    verify(c, psf, f, size, mx, 0.01, "cropping with the default threshold")


def calculated(c, size):
    phys = physical(c)
    psf, pols = build(c, [(-2, 2)], [0.3], phys, size)
    psf.n_int_r_points, psf.n_int_phi_points = 21, 38
    calls = stubs(c, pols, size)
    psf.calculate_psf_kernel(True, c.bool("normalized"), False, c.bool("accelerated"))
    if not calls:
        return
    f = list(c.flat(psf.kernel))
    t = 0.15
    mx = c.max(f)
    psf.crop_kernel(t)
    verify(c, psf, f, size, mx, t, "cropping a calculated kernel")


def refused(c, size):
    psf = make(c, size)
    f = list(c.flat(psf.kernel))
    t = c.real("t", -2, 3)
    c.assume(c.any([t <= 0, t >= 0.5]))
    if size > 3:
        c.raises(ValueError, lambda: psf.crop_kernel(t), "a threshold outside (0, 0.5)")
    else:
        c.outcome(lambda: psf.crop_kernel(t), ValueError)
    c.check(tuple(c.np.shape(psf.kernel)) == (size, size) and psf.kernel_size == size, "the size is unchanged")
    c.closes(c.flat(psf.kernel), c.nparray(f), 0, "the kernel is unchanged")


def small(c, size):
    psf = make(c, size)
    f = list(c.flat(psf.kernel))
    psf.crop_kernel(c.real("t", 1e-4, 0.4999))
    c.check(tuple(c.np.shape(psf.kernel)) == (size, size) and psf.kernel_size == size, "the size is unchanged")
    c.closes(c.flat(psf.kernel), c.nparray(f), 0, "the kernel is unchanged")


def uncalculated(c):
    zp = c.mod("zernpsf").ZernPSF
    psf = zp(c.Z.ZernPol(m=c.choice("m", [-2, 0, 2]), n=2))
    psf.set_physical_props(0.4, 0.5, 0.1, 0.1)
    n, k = psf.kernel_size, list(c.flat(psf.kernel))
    psf.crop_kernel(c.real("t", 1e-4, 0.4999))
    c.check(psf.kernel_size == n, "the size of a kernel not yet calculated is unchanged")
    c.closes(c.flat(psf.kernel), c.nparray(k), 0, "the default kernel is unchanged")


def tasks(tier):
    th = tier == "thorough"
    t = [Task(crop, size=s) for s in [5, 7, 9] + ([11, 13, 15] if th else [])]
    t += [Task(crop, size=s, twice=True) for s in [7] + ([9] if th else [])]
    t += [Task(default, size=s) for s in [5, 9] + ([13] if th else [])]
    t += [Task(calculated, size=s) for s in [5] + ([7] if th else [])]
    t += [Task(refused, size=s) for s in (3, 5, 7)]
    t += [Task(small, size=s) for s in (1, 3)]
    t.append(Task(uncalculated))
    return t
