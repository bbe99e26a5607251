"""Construction of ZernPSF, the neutral state before calculation, independence of instances."""
from run import Task

BOUNDS = ("single polynomials n <= 20 (thorough n <= 54), the orders chosen by symbolic integers; sequences (list, tuple) of 0..3 elements from 8 kinds of polynomials and other "
          "objects, two polynomials with any symbolic orders n <= 6 and 7..9, 19..20 (three azimuthal orders each); listed non-sequences; histories of up to 3 operations out of 6 on one of two instances, with symbolic "
          "property values; convolution of 2 x 3 images with the neutral kernel, every pixel free")
OUTSIDE = "sets, dictionaries and 0-d arrays (they raise TypeError or KeyError); several polynomials without physical properties (there are no default amplitudes)"


def neutral(c, psf, name):
    c.check(tuple(c.np.shape(psf.kernel)) == (1, 1), f"{name}: one point")
    c.close(list(c.flat(psf.kernel))[0], 1.0, 0, f"{name}: neutral kernel")


def single(c, lo, hi, seq):
    n = c.concrete(c.int("n", lo, hi))
    m = c.choice("m", list(range(-n, n + 1, 2)))
    p = c.Z.ZernPol(m=m, n=n)
    zp = c.mod("zernpsf").ZernPSF
    psf = zp(p if seq is None else seq([p]))
    c.check(psf.zernpol is not None and psf.zernpol.get_mn_orders() == (m, n), "the polynomial is used")
    neutral(c, psf, f"PSF of {m, n}")
    c.check(psf.kernel_size == 1, "no kernel size yet")
    c.check(p.get_mn_orders() == (m, n), "the polynomial is unchanged")


def elements(c, k):
    z = c.Z.ZernPol
    kinds = [lambda: z(m=0, n=2), lambda: z(m=-1, n=1), lambda: z(m=0, n=0), lambda: z(osa_index=4), lambda: (0, 2), lambda: None, lambda: "Z", lambda: 3]
    good = [(0, 2), (-1, 1), (0, 0), (0, 2)] + [None] * 4
    i = [c.choice(f"kind{q}", list(range(8))) for q in range(k)]
    return [kinds[q]() for q in i], [good[q] for q in i]


def sequence(c, k, seq):
    e, orders = elements(c, k)
    zp = c.mod("zernpsf").ZernPSF
    ok = k > 0 and None not in orders and len(set(orders)) == k
    if not ok:
        c.raises(ValueError, lambda: zp(seq(e)), f"{k} elements {orders}")
    else:
        psf = zp(seq(e))
        got = [psf.zernpol.get_mn_orders()] if k == 1 else [p.get_mn_orders() for p in psf.polynomials]
        c.check(got == orders, "the polynomials in the given order")
        c.check((psf.zernpol is None) == (k > 1), "one polynomial is unpacked")
        neutral(c, psf, "PSF of a sequence")


def repeated(c, lo=0, hi=6):
    z = c.Z.ZernPol
    v = []
    for i in (1, 2):
        n = c.concrete(c.int(f"n{i}", lo, hi))
        ms = list(range(-n, n + 1, 2))
        v.append((c.choice(f"m{i}", ms if hi <= 6 else [ms[0], ms[len(ms) // 2], ms[-1]]), n))
    pols = [z(m=m, n=n) for m, n in v]
    zp = c.mod("zernpsf").ZernPSF
    if v[0] == v[1]:
        c.raises(ValueError, lambda: zp(pols), "a repeated polynomial")
        third = z(m=1, n=25)
        c.raises(ValueError, lambda: zp((pols[0], third, pols[1])), "a repeated polynomial that is not next to the first one")
    else:
        c.check([p.get_mn_orders() for p in zp(pols).polynomials] == v, "different polynomials are accepted")


def other(c, what):
    z = c.Z.ZernPol
    x = {"none": lambda: None, "int": lambda: c.int("i", -5, 5), "float": lambda: c.real("f", -5, 5), "str": lambda: "Defocus", "empty str": lambda: "", "class": lambda: z,
         "pair": lambda: (0, 2), "generator": lambda: (p for p in [z(m=0, n=2)]), "object": lambda: object(), "dict": lambda: {}, "bytes": lambda: b"ab",
         "nested": lambda: [[z(m=0, n=2)], [z(m=0, n=4)]], "psf": lambda: c.mod("zernpsf").ZernPSF(z(m=0, n=2))}[what]()
    zp = c.mod("zernpsf").ZernPSF
    c.raises(ValueError, lambda: zp(x), f"{what} instead of polynomials")


ATTR = ("NA", "wavelength", "expansion_coeff", "pixel_size", "kernel_size", "n_int_r_points", "n_int_phi_points", "alpha", "json_file_path", "airy")


def state(c, psf):
    return [getattr(psf, a) for a in ATTR] + [psf.zernpol, psf.polynomials, psf.coefficients, psf.amplitudes], tuple(c.np.shape(psf.kernel)), list(c.flat(psf.kernel))


def same(c, a, b, name):
    c.check(a[1] == b[1], f"{name}: shape of the kernel")
    for x, y in zip(a[2], b[2]):
        c.close(x, y, 0, f"{name}: kernel")
    for n, x, y in zip(ATTR + ("zernpol", "polynomials", "coefficients", "amplitudes"), a[0], b[0]):
        if isinstance(x, (bool, str, tuple, type(None))) or not hasattr(x, "__sub__"):
            c.check(x is y or x == y, f"{name}: {n}")
        else:
            c.closes(c.nparray([x]) if not hasattr(x, "__len__") else x, c.nparray([y]) if not hasattr(y, "__len__") else y, 0, f"{name}: {n}")


def operation(c, psf, i, several):
    op = c.choice(f"op{i}", ["physical", "calculation", "calculate", "accelerated", "crop", "refused"])
    if op == "physical":
        na, wl = c.real(f"na{i}", 0.1, 1.5), c.real(f"wl{i}", 0.3, 0.9)
        co = c.real(f"co{i}", -0.9, 0.9)
        psf.set_physical_props(na, wl, [0.02, 0.03] if several else co, 0.04)
    elif op == "calculation":
        psf.set_calculation_props(c.choice(f"size{i}", [3, 5]), 25, 42)
    elif op in ("calculate", "accelerated"):
        if several and psf.amplitudes is None:
            return
        if psf.kernel_size < 3 or psf.kernel_size > 5:
            psf.kernel_size = 3
        psf.calculate_psf_kernel(True, True, False, op == "accelerated")
    elif op == "crop":
        psf.crop_kernel(0.3)
    else:
        c.raises(ValueError, lambda: psf.set_physical_props(c.real(f"na{i}", 2, 3), 0.5, 0.1, 0.1), "refused properties")


def histories(c, several, steps):
    zp = c.mod("zernpsf")
    z = c.Z.ZernPol
    c.patch(zp, "get_kernel_size", lambda *a, **k: 3)
    values = iter(range(1, 10 ** 6))
    m, n = c.mod("calculations.calc_psfs"), c.mod("calculations.calc_psfs_numba")
    for mod, name in ((m, "get_psf_point_r"), (m, "get_psf_point_r_parallel"), (m, "get_psf_point_r_pols"), (n, "get_psf_point_r_comp"), (n, "get_psf_point_r_pols_comp")):
        c.patch(mod, name, lambda *a, **k: float(next(values) % 7 + 1))
    pols = [z(m=0, n=2), z(m=1, n=1)]
    a = zp.ZernPSF(pols if several else pols[0])
    b = zp.ZernPSF([z(m=0, n=2), z(m=1, n=1)] if several else pols[0])
    sa, sb = state(c, a), state(c, b)
    same(c, sa, sb, "two new instances")
    for i in range(steps):
        operation(c, a, i, several)
    same(c, state(c, b), sb, "the other instance is unchanged")
    n = zp.ZernPSF(list(pols) if several else pols[0])
    sn = state(c, n)
    if several:
        sn[0][11] = sb[0][11] = None
    same(c, sn, sb, "a new instance starts with the defaults")
    if several:
        c.check([p.get_mn_orders() for p in a.polynomials] == [(0, 2), (1, 1)], "the polynomials are kept")
    else:
        c.check(a.zernpol.get_mn_orders() == (0, 2), "the polynomial is kept")


def unset(c, several):
    """Before the calculation the kernel is the neutral one, whatever properties are set."""
    zp = c.mod("zernpsf")
    z = c.Z.ZernPol
    psf = zp.ZernPSF([z(m=0, n=2), z(m=1, n=1)] if several else z(m=0, n=2))
    if c.bool("physical"):
        c.patch(zp, "get_kernel_size", lambda *a, **k: 3)
        psf.set_physical_props(c.real("na", 0.1, 1.5), 0.5, [0.02, 0.03] if several else c.real("co", -0.9, 0.9), 0.04)
        if c.bool("calculation"):
            psf.set_calculation_props(5, 25, 42)
    neutral(c, psf, "PSF before the calculation")
    img = c.array("img", (2, 3), 0, 100)
    f = list(c.flat(img))
    out = psf.convolute_img(img, scale2original=False)
    for i, (x, y) in enumerate(zip(c.flat(out), f)):
        c.close(x, y, 1e-9, f"pixel {i} of the image convolved with the neutral kernel", 1e-9)


def tasks(tier):
    th = tier == "thorough"
    top = 54 if th else 20
    t = [Task(single, lo=a, hi=min(a + 8, top), seq=s) for a in range(0, top + 1, 9) for s in (None, list, tuple)]
    t += [Task(sequence, k=k, seq=s) for k in range(4) for s in (list, tuple)]
    t += [Task(repeated, lo=0, hi=6), Task(repeated, lo=7, hi=9 if not th else 14), Task(repeated, lo=19, hi=20)]
    t += [Task(other, what=w) for w in ("none", "int", "float", "str", "empty str", "class", "pair", "generator", "object", "dict", "bytes", "nested", "psf")]
    t += [Task(histories, several=s, steps=k, budget=200) for s in (False, True) for k in ((1, 2, 3, 4) if th else (1, 2, 3))]
    t += [Task(unset, several=s) for s in (False, True)]
    return t
