"""What is drawn: a small stand-in for matplotlib (symbolic runs) and a recorder on the real one (replays).

Both sides describe every figure by the same records: Drawing(kind, axes, x, y, z, cmap, origin, fig), colour bars and titles.
"""
import types

from .core import Unsupported


class Drawing:
    def __init__(self, kind, axes, fig, x=None, y=None, z=None, cmap=None, origin=None, extent=None):
        self.kind, self.axes, self.fig, self.x, self.y, self.z = kind, axes, fig, x, y, z
        self.cmap = getattr(cmap, "name", cmap)
        self.origin, self.extent = origin, extent


class Book:
    """All figures of one run."""

    def __init__(self):
        self.figures, self.shown = [], 0
        self.state = {}

    def of(self, fig):
        for k, (f, s) in self.state.items():
            if f is fig:
                return s
        s = types.SimpleNamespace(drawings=[], colorbars=[], titles=[], cleared=0)
        self.state[id(fig)] = (fig, s)
        self.figures.append(fig)
        return s

    def clear(self, fig):
        s = self.of(fig)
        s.drawings, s.colorbars, s.titles = [], [], []
        s.cleared += 1


class _Quiet:
    """Methods without influence on the recorded content."""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("contourf", "contour", "pcolor", "pcolorfast", "tripcolor", "scatter", "plot", "plot_trisurf", "plot_wireframe", "tricontourf", "matshow"):
            raise Unsupported(f"drawing with {n}")
        return _Quiet()

    def __call__(self, *a, **k):
        return _Quiet()

    def __setattr__(self, n, v):
        self.__dict__[n] = v


class Axes(_Quiet):
    def __init__(self, fig, name):
        self.figure, self.name = fig, name or "rectilinear"

    def _add(self, d):
        self.figure._book.of(self.figure).drawings.append(d)
        d.axes_object = self
        return d

    def pcolormesh(self, *a, cmap=None, shading=None, **k):
        if len(a) == 3:
            x, y, z = a
        else:
            x, y, z = None, None, a[0]
        return self._add(Drawing("mesh", self.name, self.figure, x, y, z, cmap))

    def plot_surface(self, X, Y, Z, *, cmap=None, **k):
        if self.name != "3d":
            raise AttributeError("plot_surface")
        return self._add(Drawing("surface", self.name, self.figure, X, Y, Z, cmap))

    def imshow(self, X, cmap=None, *a, origin=None, extent=None, **k):
        return self._add(Drawing("image", self.name, self.figure, None, None, X, cmap, origin, extent))

    def set_title(self, label, *a, **k):
        self.figure._book.of(self.figure).titles.append(label)

    def clear(self):
        s = self.figure._book.of(self.figure)
        s.drawings = [d for d in s.drawings if d.axes_object is not self]
    cla = clear

    def get_figure(self):
        return self.figure


class Figure(_Quiet):
    _book = None

    def __init__(self, *a, **k):
        self.axes = []
        self.label = None
        self._book.of(self)

    def clear(self, keep_observers=False):
        self.axes.clear()
        self._book.clear(self)
    clf = clear

    def add_subplot(self, *a, projection=None, polar=False, **k):
        x = Axes(self, "polar" if polar else projection)
        self.axes.append(x)
        return x

    def add_axes(self, rect, *a, projection=None, polar=False, **k):
        return self.add_subplot(projection=projection, polar=polar)

    def subplots(self, nrows=1, ncols=1, *, squeeze=True, subplot_kw=None, **k):
        import numpy as np
        o = np.empty((nrows, ncols), dtype=object)
        for i in np.ndindex(nrows, ncols):
            o[i] = self.add_subplot(**(subplot_kw or {}))
        return o[0, 0] if squeeze and nrows == ncols == 1 else np.squeeze(o) if squeeze else o

    def gca(self):
        own = [x for x in self.axes if x.name != "bar"]
        return own[-1] if own else self.add_subplot()

    def colorbar(self, mappable, *a, **k):
        self._book.of(self).colorbars.append(mappable)
        bar = _Quiet()
        bar.ax = k.get("cax")
        if bar.ax is None:   # a colour bar takes its own axes
            bar.ax = Axes(self, "bar")
            self.axes.append(bar.ax)
        return bar

    def suptitle(self, t, **k):
        self._book.of(self).titles.append(t)

    def show(self, *a, **k):
        self._book.shown += 1


class _CM(_Quiet):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "get_cmap":
            return lambda name=None, *a: types.SimpleNamespace(name=getattr(name, "name", name))
        return types.SimpleNamespace(name=n)

    def __getitem__(self, n):
        return types.SimpleNamespace(name=n)


class Pyplot(_Quiet):
    def __init__(self, book):
        self.book = book
        self.Figure = type("Figure", (Figure,), {"_book": book})
        self.cm = _CM()
        self.nums = {}
        self.cur = None
        self.last = None

    def figure(self, num=None, *a, clear=False, **k):
        if isinstance(num, self.Figure):
            self.cur = num
            return num
        key = num if num is not None else object()
        f = self.nums.get(key)
        if f is None:
            f = self.nums[key] = self.Figure()
            f.label = num
        elif clear:
            f.clear()
        self.cur = f
        return f

    def gcf(self):
        return self.cur or self.figure()

    def gca(self):
        return self.gcf().gca()

    def axes(self, arg=None, **k):
        return self.gcf().add_subplot(**k)

    def subplot(self, *a, **k):
        return self.gcf().add_subplot(**k)

    def subplots(self, nrows=1, ncols=1, *, squeeze=True, subplot_kw=None, **k):
        f = self.figure()
        return f, f.subplots(nrows, ncols, squeeze=squeeze, subplot_kw=subplot_kw)

    def pcolormesh(self, *a, **k):
        self.last = self.gca().pcolormesh(*a, **k)
        return self.last

    def imshow(self, *a, **k):
        self.last = self.gca().imshow(*a, **k)
        return self.last

    def colorbar(self, mappable=None, *a, **k):
        return self.gcf().colorbar(self.last if mappable is None else mappable)

    def title(self, label, *a, **k):
        self.gca().set_title(label)

    def suptitle(self, label, **k):
        self.gcf().suptitle(label)

    def clf(self):
        self.gcf().clear()

    def close(self, *a):
        self.cur = None

    def show(self, *a, **k):
        self.book.shown += 1

    def isinteractive(self):
        return False

    def get_cmap(self, name=None, *a):
        return types.SimpleNamespace(name=getattr(name, "name", name))


class Matplotlib(_Quiet):
    def __init__(self, book):
        self.pyplot = Pyplot(book)
        self.cm = self.colormaps = _CM()
        self.figure = types.SimpleNamespace(Figure=self.pyplot.Figure)
        self.axes = types.SimpleNamespace(Axes=Axes)
        self.patches = types.SimpleNamespace(Circle=lambda *a, **k: None)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Quiet()


def record_real(book):
    """Record what is drawn on real matplotlib figures; returns the function that undoes it."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes as MA
    from matplotlib.figure import Figure as MF
    from mpl_toolkits.mplot3d import Axes3D
    plt.close("all")
    undo, nested = [], []

    def wrap(cls, name, mk):
        old = cls.__dict__[name]
        undo.append((cls, name, old))
        setattr(cls, name, mk(old))

    def drawer(kind):
        def mk(old):
            def g(self, *a, **k):
                r = old(self, *a, **k)
                d = Drawing(kind, self.name, self.figure, cmap=k.get("cmap"))
                if kind == "mesh":
                    d.x, d.y, d.z = a if len(a) == 3 else (None, None, a[0])
                elif kind == "surface":
                    b = list(a) + [None] * 3
                    d.x, d.y, d.z = (k.get(n, v) for n, v in zip("XYZ", b))
                else:
                    d.z = a[0] if a else k["X"]
                    d.cmap = getattr(k.get("cmap", a[1] if len(a) > 1 else None), "name", k.get("cmap", a[1] if len(a) > 1 else None))
                    d.origin, d.extent = k.get("origin"), k.get("extent")
                d.artist = r
                d.axes_object = self
                if nested:   # the solids of a colour bar
                    return r
                book.of(self.figure).drawings.append(d)
                return r
            return g
        return mk

    wrap(MA, "pcolormesh", drawer("mesh"))
    wrap(MA, "imshow", drawer("image"))
    wrap(Axes3D, "plot_surface", drawer("surface"))

    def title(old):
        def g(self, label, *a, **k):
            book.of(self.figure).titles.append(label)
            return old(self, label, *a, **k)
        return g
    wrap(MA, "set_title", title)
    from matplotlib.figure import FigureBase

    def bar(old):
        def g(self, mappable, *a, **k):
            book.of(self).colorbars.append(next((d for d in book.of(self).drawings if d.artist is mappable), None))
            nested.append(1)
            try:
                return old(self, mappable, *a, **k)
            finally:
                nested.pop()
        return g
    wrap(FigureBase, "colorbar", bar)

    def clr(old):
        def g(self, *a, **k):
            book.clear(self)
            return old(self, *a, **k)
        return g
    cls = MF if "clear" in MF.__dict__ else FigureBase
    wrap(cls, "clear", clr)

    def init(old):
        def g(self, *a, **k):
            book.of(self)
            return old(self, *a, **k)
        return g
    wrap(MF, "__init__", init)
    shows = plt.show

    def show(*a, **k):
        book.shown += 1
    plt.show = show
    fshow = MF.show

    def fs(self, *a, **k):
        book.shown += 1
    MF.show = fs

    def restore():
        plt.show, MF.show = shows, fshow
        for cls, name, old in reversed(undo):
            setattr(cls, name, old)
        plt.close("all")
    return restore
