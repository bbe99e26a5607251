"""save_json / read_json: round trip of the state, no silent overwriting, files that are no PSF."""
import os
from pathlib import Path
from run import Task
from checks.C20 import coefficients

BOUNDS = ("NA 0.05..1.7, wavelength 0.1..2, pixel size, coefficients -0.99..0.99, numbers of integration points 20..600 / 36..600 and every entry of 3 x 3 and 5 x 5 (thorough 7 x 7) "
          "kernels symbolic; one to three polynomials with n <= 10, Airy; reader with one, several, Airy or the same polynomials; folder as string or Path, default folder; "
          "overwrite on / off with and without an existing file; kernel sizes 3, 5 and 11 set after the calculation; NumPy float32 / float64 / integer property values")
OUTSIDE = "interrupted writes; file systems with short file names; kernels saved by earlier versions; the text encoding of single numbers (JSON numbers restore a float exactly)"


def writer(c, mns, size, tag=""):
    zp = c.mod("zernpsf")
    c.patch(zp, "get_kernel_size", lambda *a, **k: 3)
    pols = [c.Z.ZernPol(m=m, n=n) for m, n in mns]
    psf = zp.ZernPSF(pols if len(pols) > 1 else pols[0])
    v = (c.real("na", 0.05, 1.7), c.real("wl", 0.1, 2), c.real("pix", 0.002, 10))
    c.assume(4.001 * v[2] * v[0] <= v[1])
    if len(mns) == 1:
        co = [c.real("coef0", -0.99, 0.99)]
        psf.set_physical_props(v[0], v[1], co[0], v[2])
    else:
        co = [c.real(f"coef{i}", 0.001 + 0.01 * i, 0.008 + 0.01 * i) for i in range(len(mns))]
        psf.set_physical_props(v[0], v[1], co, v[2])
    psf.kernel = c.array("k", (size, size), 0, 1000)
    psf.kernel_size = size
    psf.n_int_r_points, psf.n_int_phi_points = c.choice("nr", [20, 333]), c.choice("nphi", [36, 298])
    return psf, v, co


def restored(c, q, mns, v, co, k, size, nr, nphi, name=""):
    c.check(tuple(c.np.shape(q.kernel)) == (size, size), f"{name}shape of the restored kernel")
    c.closes(c.flat(q.kernel), c.nparray(k), 0, f"{name}restored kernel")
    c.check(q.kernel_size == size, f"{name}restored kernel size")
    for x, y, w in ((q.NA, v[0], "NA"), (q.wavelength, v[1], "wavelength"), (q.pixel_size, v[2], "pixel size")):
        c.close(x, y, 0, f"{name}restored {w}")
    c.check((q.n_int_r_points, q.n_int_phi_points) == (nr, nphi), f"{name}restored integration settings")
    if len(mns) == 1:
        c.check(q.zernpol is not None and q.zernpol.get_mn_orders() == mns[0], f"{name}restored polynomial")
        c.close(q.expansion_coeff, co[0], 0, f"{name}restored coefficient")
        c.close(q.alpha * v[1], co[0], 1e-9, f"{name}amplitude in wavelengths", 1e-9)
    else:
        c.check(q.zernpol is None and [p.get_mn_orders() for p in q.polynomials] == mns, f"{name}restored polynomials")
        c.closes(c.flat(q.coefficients), c.nparray(co), 0, f"{name}restored coefficients")
        for x, y in zip(c.flat(q.amplitudes), co):
            c.close(x * v[1], y, 1e-9, f"{name}amplitude in wavelengths", 1e-9)


def behaviour(c, q, mns, v, co):
    """A recalculation after loading uses what was loaded (single or several polynomials, Airy formula)."""
    got = []
    m = c.mod("calculations.calc_psfs")

    def rec(kind):
        def f(pol, *a, **k):
            got.append((kind, pol))
            return 1.0
        return f
    for n in ("get_psf_point_r", "get_psf_point_r_parallel"):
        c.patch(m, n, rec("single"))
    c.patch(m, "get_psf_point_r_pols", rec("several"))
    c.patch(m, "airy_ref_pattern", lambda *a, **k: got.append(("airy", None)) or 1.0)
    q.kernel_size = 3
    q.calculate_psf_kernel(True, False, False, False)
    if not got:
        return
    want = "airy" if mns == [(0, 0)] else ("single" if len(mns) == 1 else "several")
    c.check(all(g[0] == want for g in got), "recalculation after loading treats the polynomials as saved")


def reader(c, kind):
    z = c.Z.ZernPol
    return c.mod("zernpsf").ZernPSF({"one": z(m=1, n=3), "airy": z(m=0, n=0), "several": (z(m=-1, n=1), z(m=2, n=4))}[kind])


def roundtrip(c, mns, size, kind, as_path):
    psf, v, co = writer(c, mns, size)
    k, nr, nphi = list(c.flat(psf.kernel)), psf.n_int_r_points, psf.n_int_phi_points
    folder = Path(c.scratch) if as_path else str(c.scratch)
    n = len(c.warnings)
    psf.save_json(folder, c.bool("overwrite"))
    c.check(len(c.warnings) == n, "no warning for a calculated kernel and a new file")
    files = os.listdir(c.scratch)
    c.check(len(files) == 1 and files[0].endswith(".json"), "one JSON file is written into the folder")
    restored(c, psf, mns, v, co, k, size, nr, nphi, "saving changes nothing: ")
    path = os.path.join(str(c.scratch), files[0])
    c.check(str(Path(psf.json_file_path).resolve()) == str(Path(path).resolve()), "the path of the file is kept")
    q = reader(c, kind)
    n = len(c.warnings)
    q.read_json(Path(path) if as_path else path)
    c.check(len(c.warnings) == n, "no warning when a valid file is read")
    restored(c, q, mns, v, co, k, size, nr, nphi)
    psf.read_json()
    restored(c, psf, mns, v, co, k, size, nr, nphi, "reading the last saved file: ")
    behaviour(c, q, mns, v, co)
    if len(mns) == 1:
        q.set_physical_props(0.5, 0.5, [0.11], 0.1)
        c.close(q.expansion_coeff, 0.11, 0, "a loaded single polynomial takes one coefficient, also from a sequence")
        c.raises(ValueError, lambda: q.set_physical_props(0.5, 0.5, [0.1, 0.2], 0.1), "two coefficients for a loaded single polynomial")
    else:
        c.raises(ValueError, lambda: q.set_physical_props(0.5, 0.5, 0.11, 0.1), "one coefficient for several loaded polynomials")
        q.set_physical_props(0.5, 0.5, [0.01 * (i + 1) for i in range(len(mns))], 0.1)


def resized(c, mns, size, setting):
    """The kernel size for the next calculation was set after the kernel had been calculated."""
    psf, v, co = writer(c, mns, size)
    psf.set_calculation_props(setting, 55, 77)
    k, now = list(c.flat(psf.kernel)), psf.kernel_size
    psf.save_json(str(c.scratch))
    q = reader(c, "several")
    q.read_json(os.path.join(str(c.scratch), os.listdir(c.scratch)[0]))
    c.check(tuple(c.np.shape(q.kernel)) == (size, size), "shape of the restored kernel")
    c.closes(c.flat(q.kernel), c.nparray(k), 0, "restored kernel")
    c.check(q.kernel_size == now == setting, "restored kernel size")
    c.check((q.n_int_r_points, q.n_int_phi_points) == (psf.n_int_r_points, psf.n_int_phi_points) == (55, 77), "restored integration settings")


def existing(c, mns, overwrite):
    """The same file name again, with another kernel and other properties."""
    psf, v, co = writer(c, mns, 3)
    k = list(c.flat(psf.kernel))
    psf.save_json(str(c.scratch))
    files = os.listdir(c.scratch)
    c.check(len(files) == 1, "one file")
    p = os.path.join(str(c.scratch), files[0])
    old = Path(p).read_bytes()
    nr, nphi = psf.n_int_r_points, psf.n_int_phi_points
    psf.kernel = c.array("other", (5, 5), 0, 1000)
    k2 = list(c.flat(psf.kernel))
    psf.kernel_size, psf.n_int_r_points = 5, 77
    n = len(c.warnings)
    if overwrite is None:
        psf.save_json(str(c.scratch))
    else:
        psf.save_json(str(c.scratch), overwrite)
    c.check(os.listdir(c.scratch) == files, "no further file is written")
    q = reader(c, "one")
    if overwrite:
        q.read_json(p)
        restored(c, q, mns, v, co, k2, 5, 77, nphi, "overwritten file: ")
    else:
        c.check(len(c.warnings) > n, "a warning that the file exists")
        c.check(Path(p).read_bytes() == old, "the file is not touched")
        q.read_json(p)
        restored(c, q, mns, v, co, k, 3, nr, nphi, "kept file: ")


def default_folder(c, mns):
    psf, v, co = writer(c, mns, 3)
    k = list(c.flat(psf.kernel))
    nr, nphi = psf.n_int_r_points, psf.n_int_phi_points
    here = os.getcwd()
    os.chdir(str(c.scratch))
    psf.json_file_path = str(c.scratch)   # instead of the folder of the package, which checks leave alone
    try:
        how = c.choice("folder", ["none", "missing"])
        if how == "none":
            psf.save_json()
        else:
            psf.save_json(os.path.join(str(c.scratch), "there is no such folder"))
        psf.save_json(overwrite=True)
        q = reader(c, "several")
        q.read_json(psf.json_file_path)
    finally:
        os.chdir(here)
    restored(c, q, mns, v, co, k, 3, nr, nphi)


def uncalculated(c, props):
    """A kernel that was never calculated: a warning, and what is read back is not larger than what was there."""
    zp = c.mod("zernpsf")
    psf = zp.ZernPSF(c.Z.ZernPol(m=0, n=2))
    if props:
        c.patch(zp, "get_kernel_size", lambda *a, **k: 11)
        psf.set_physical_props(0.5, 0.5, c.real("coef", -2, 2), 0.1)
    n = len(c.warnings)
    psf.save_json(str(c.scratch))
    c.check(len(c.warnings) > n, "a warning that the kernel most likely was not calculated")


def unreadable(c, what):
    psf, v, co = writer(c, [(1, 1)], 3)
    k = list(c.flat(psf.kernel))
    nr, nphi = psf.n_int_r_points, psf.n_int_phi_points
    p = os.path.join(str(c.scratch), "x.json")
    if what == "folder":
        p = str(c.scratch)
    elif what == "text":
        Path(p).write_text("no json")
    n = len(c.warnings)
    r = c.outcome(lambda: psf.read_json(p), ValueError)
    c.check(r[0] == "raised" or len(c.warnings) > n, "a file that is no PSF is reported")
    restored(c, psf, [(1, 1)], v, co, k, 3, nr, nphi, "nothing is changed: ")


def types(c, kind):
    """NumPy numbers as properties."""
    np = c.np
    t = getattr(np, kind)
    zp = c.mod("zernpsf")
    c.patch(zp, "get_kernel_size", lambda *a, **k: 3)
    psf = zp.ZernPSF(c.Z.ZernPol(m=0, n=2))
    v = [t(0.5), t(0.75), t(0.125)] if kind.startswith("float") else [t(1), t(8), t(1)]
    co = t(0.25) if kind.startswith("float") else t(2)
    psf.set_physical_props(v[0], v[1], co, v[2])
    psf.kernel = c.array("k", (3, 3), 0, 10)
    i = np.int64 if kind.startswith("float") else t
    psf.set_calculation_props(i(3), i(20), i(36))
    k = list(c.flat(psf.kernel))
    psf.save_json(str(c.scratch))
    q = reader(c, "one")
    q.read_json(psf.json_file_path)
    restored(c, q, [(0, 2)], [float(x) for x in v], [float(co)], k, 3, 20, 36)


def tasks(tier):
    th = tier == "thorough"
    s = dict(opts={"scratch": True})
    sets = [[(0, 0)], [(-1, 3)], [(4, 10)], [(1, 1), (0, 4)], [(2, 2), (-3, 3), (0, 0)]]
    t = [Task(roundtrip, mns=m, size=z, kind=k, as_path=a, **s) for m in sets for z in ([3, 5] + ([7] if th else [])) for k in ("one", "airy", "several") for a in (False, True)]
    t += [Task(resized, mns=m, size=3, setting=n, **s) for m in sets for n in (5, 11)]
    t += [Task(resized, mns=m, size=5, setting=3, **s) for m in sets]
    t += [Task(existing, mns=m, overwrite=o, **s) for m in sets for o in (None, False, True)]
    t += [Task(default_folder, mns=m, **s) for m in sets]
    t += [Task(uncalculated, props=p, **s) for p in (False, True)]
    t += [Task(unreadable, what=w, **s) for w in ("missing", "folder", "text")]
    t += [Task(types, kind=k, **s) for k in ("float32", "float64", "int64", "int32")]
    return t
