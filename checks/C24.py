"""Convolution: kernel-weighted mean of the neighbourhood with reflected borders, optional rescaling to the maximum."""
from run import Task

BOUNDS = ("images 1 x 1 .. 4 x 4 (thorough 6 x 5) with every pixel free, kernels 3 x 3 and 5 x 5 with every entry free and not negative, also larger than the image; float64, "
          "uint8, uint16 and int16 images with every grey level (negative ones in images of up to 4 pixels); rescaling (one or two pixels free, the others fixed) on and off; constant images (black included) of every value; through the class and the function")
OUTSIDE = "kernels of even size or with negative entries; kernels without any intensity; rescaling of images with negative pixels; colour images"


def reflect(i, n):
    i %= 2 * n
    return i if i < n else 2 * n - 1 - i


def weighted(img, k, h, w, s, i, j):
    """Sum over the kernel (size s) around pixel (i, j), the convolution flips the kernel."""
    t, o = 0.0, s // 2
    for p in range(s):
        for q in range(s):
            t = t + k[p * s + q] * img[reflect(i + o - p, h) * w + reflect(j + o - q, w)]
    return t


def kernel(c, s, how):
    if how == "free":
        k = c.array("k", (s, s), 0, 1)
        c.assume(k[s // 2, s // 2] >= 0.01)
        return k
    # ordinary asymmetric kernel
    return c.np.asarray([[(1 + (3 * i + 5 * j) % 7) / 8.0 for j in range(s)] for i in range(s)])


RANGE = {"uint8": (0, 255), "uint16": (0, 65535), "int16": (-32768, 32767)}


def image(c, h, w, dtype, nonneg=False, free=None, unit=1):
    if free is not None:   # only some pixels free, the others fixed
        lo, hi = (0, 100 / unit) if dtype == "float64" else (0, RANGE[dtype][1])
        px = [(c.real(f"i{e}", lo, hi) if dtype == "float64" else c.int(f"i{e}", lo, hi)) if e in free else (17 * e + 5) % 23 / unit if dtype == "float64" else (17 * e + 5) % 23 for e in range(h * w)]
        return c.nparray([px[i * w:(i + 1) * w] for i in range(h)]).astype(dtype)
    if dtype.startswith("float"):
        return c.array("i", (h, w), 0 if nonneg else -100, 100)
    lo, hi = RANGE[dtype]
    return c.array("i", (h, w), 0 if nonneg else lo, hi, True, dtype)


def apply(c, via, img, k, scale):
    if via == "class":
        psf = c.mod("zernpsf").ZernPSF(c.Z.ZernPol(m=0, n=2))
        psf.kernel = k
        psf.kernel_size = k.shape[0]
        return psf.convolute_img(img) if scale is None else psf.convolute_img(image=img, scale2original=scale)
    f = c.mod("calculations.calc_psfs").convolute_img_psf
    return f(img, k) if scale is None else f(img=img, psf_kernel=k, scale2original=scale)


def mean(c, h, w, s, how, dtype, via, scale, free=None, unit=1):
    rescale = scale or (scale is None and via == "class")
    img = image(c, h, w, dtype, rescale or dtype == "int16" and h * w > 4, free, unit)
    k = kernel(c, s, how)
    fi, fk = list(c.flat(img)), list(c.flat(k))
    total = sum(fk[1:], fk[0])
    out = apply(c, via, img, k, scale)
    c.check(tuple(c.np.shape(out)) == (h, w), "shape of the image is kept")
    c.check(str(out.dtype) == dtype, "data type of the image is kept")
    c.closes(c.flat(img), c.nparray(fi), 0, "the input image is not modified")
    c.closes(c.flat(k), c.nparray(fk), 0, "the kernel is not modified")
    step = 1e-9 if dtype == "float64" else 1.0 + 1e-6
    ref = [weighted(fi, fk, h, w, s, i, j) for i in range(h) for j in range(w)]
    got = list(c.flat(out))
    for e in range(h * w):
        if not rescale:
            if dtype == "float64":
                c.close(got[e] * total, ref[e], 1e-7, f"pixel {e // w}, {e % w} is the weighted mean", 1e-7)
            else:
                c.check(c.all([got[e] * total - ref[e] <= total * step, ref[e] - got[e] * total <= total * step]), f"pixel {e // w}, {e % w} is the weighted mean")
        elif dtype == "float64":
            c.close(got[e] * c.max(ref), ref[e] * c.max(fi), 1e-5 / unit ** 2, f"pixel {e // w}, {e % w} is the rescaled weighted mean", 1e-5 / unit ** 2)
        else:
            m = c.max(ref)
            c.check(c.all([got[e] * m - ref[e] * c.max(fi) <= m * step, ref[e] * c.max(fi) - got[e] * m <= m * step]),
                    f"pixel {e // w}, {e % w} is the rescaled weighted mean")


def constant(c, h, w, s, how, dtype, via, scale):
    lo, hi = RANGE.get(dtype, (-50, 50))
    a = c.real("value", max(0, lo) if scale is not False else lo, hi) if dtype == "float64" else c.int("value", max(0, lo) if scale is not False else lo, hi)
    img = c.nparray([[a] * w for _ in range(h)]).astype(dtype)
    k = kernel(c, s, how)
    out = apply(c, via, img, k, scale)
    c.check(tuple(c.np.shape(out)) == (h, w) and str(out.dtype) == dtype, "shape and data type are kept")
    for v in c.flat(out):
        c.close(v, a, 1e-6 if dtype == "float64" else 1.0, "a constant image stays constant", 1e-6 if dtype == "float64" else 1.0)


def tasks(tier):
    th = tier == "thorough"
    t = []
    shapes = [(1, 1), (1, 3), (2, 2), (3, 2), (3, 4), (4, 4)] + ([(2, 5), (5, 5), (6, 5)] if th else [])
    for h, w in shapes:
        for s in (3, 5):
            t.append(Task(mean, h=h, w=w, s=s, how="free", dtype="float64", via="function", scale=False))
            t.append(Task(mean, h=h, w=w, s=s, how="free", dtype="float64", via="class", scale=False))
            t.append(Task(mean, h=h, w=w, s=s, how="fixed", dtype="float64", via="function", scale=None))
            for d in RANGE:
                t.append(Task(mean, h=h, w=w, s=s, how="fixed", dtype=d, via="class", scale=False))
    for h, w, f in [(1, 1, (0,)), (1, 3, (1,)), (1, 3, (0, 2)), (2, 2, (0, 3)), (3, 2, (2,)), (3, 4, (5,)), (4, 4, (0,))] + ([(4, 4, (3, 9)), (5, 5, (12,))] if th else []):
        t += [Task(mean, h=h, w=w, s=s, how="fixed", dtype="float64", via=v, scale=x, free=f) for s in (3, 5) for v, x in (("class", None), ("function", True))]
        t += [Task(mean, h=h, w=w, s=3, how="fixed", dtype=d, via="class", scale=True, free=f) for d in ("uint8", "uint16")]
        t += [Task(mean, h=h, w=w, s=3, how="fixed", dtype="float64", via="class", scale=True, free=f, unit=200)]   # dim images
    for d in ("float64", "uint8", "uint16", "int16"):
        t += [Task(constant, h=h, w=w, s=s, how=k, dtype=d, via="class", scale=x) for h, w in ((1, 1), (3, 2)) for s in (3, 5) for k in ("fixed", "free")
              for x in (None, False) if not (d != "float64" and s == 5 and k == "free")]
    return t
