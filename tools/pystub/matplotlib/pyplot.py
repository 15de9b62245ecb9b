"""Stand-in that draws nothing: a saved figure is a JSON list of its axes with the lines, texts and areas drawn on them."""
import json
import numpy as np
from matplotlib import Nothing

_state = {"fig": None, "ax": None}


def _list(x):
    if isinstance(x, Nothing) or x is None:
        return None
    x = np.atleast_1d(np.asarray(x, dtype=float)).ravel()
    return [float(v) if np.isfinite(v) else None for v in x]


class Line(object):
    def __init__(self, color):
        self.color = color

    def get_color(self):
        return self.color

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Nothing()


class Axes(Nothing):
    def __init__(self):
        self.data = {"lines": [], "texts": [], "areas": [], "xlabel": None, "ylabel": None}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Nothing()

    def plot(self, *a, **k):
        out = []
        a = list(a)
        while a:
            x = a.pop(0)
            y = a.pop(0) if a and not isinstance(a[0], str) else None
            if y is None:
                x, y = range(len(x)), x
            if a and isinstance(a[0], str):
                a.pop(0)
            self.data["lines"].append({"x": _list(x), "y": _list(y), "label": None if k.get("label") is None else str(k.get("label"))})
            out.append(Line("c%d" % len(self.data["lines"])))
        return out

    semilogx = semilogy = loglog = step = plot

    def scatter(self, x, y, *a, **k):
        self.plot(x, y, label=k.get("label"))

    def text(self, x, y, s, *a, **k):
        self.data["texts"].append({"x": float(x), "y": float(y), "text": str(s)})

    def annotate(self, s, xy, *a, **k):
        self.text(xy[0], xy[1], s)

    def fill(self, x, y, *a, **k):
        self.data["areas"].append({"x": _list(x), "y": _list(y)})

    def fill_between(self, x, y1, y2=0., *a, **k):
        y2 = np.zeros(len(x)) + y2
        self.fill(list(x) + list(x)[::-1], list(np.zeros(len(x)) + y1) + list(y2)[::-1])

    def axvspan(self, a, b, ymin=0., ymax=1., **k):
        self.fill([a, b, b, a], [ymin, ymin, ymax, ymax])

    def set_xlabel(self, s, *a, **k):
        self.data["xlabel"] = str(s)

    def set_ylabel(self, s, *a, **k):
        self.data["ylabel"] = str(s)

    def get_ylim(self):
        return (0., 1.)

    get_xlim = get_ylim


class Figure(Nothing):
    def __init__(self, *a, **k):
        self.axes = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Nothing()

    def add_subplot(self, *a, **k):
        ax = Axes()
        self.axes.append(ax)
        _state["ax"] = ax
        return ax

    def subplots(self, nrows=1, ncols=1, squeeze=True, **k):
        axs = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                axs[i, j] = self.add_subplot()
        if not squeeze:
            return axs
        return axs[0, 0] if nrows * ncols == 1 else axs.ravel() if 1 in (nrows, ncols) else axs

    def clf(self, *a, **k):
        self.axes = []

    clear = clf

    def savefig(self, fname, *a, **k):
        with open(fname, "w") as f:
            json.dump([ax.data for ax in self.axes], f)


def figure(*a, **k):
    _state["fig"] = Figure()
    return _state["fig"]


def gcf():
    return _state["fig"] or figure()


def gca():
    return _state["ax"] or gcf().add_subplot(1, 1, 1)


def subplots(*a, **k):
    f = figure()
    return f, f.subplots(*[x for x in a], **{q: v for q, v in k.items() if q in ("nrows", "ncols", "squeeze")})


def subplot(*a, **k):
    return gcf().add_subplot(*a)


def clf():
    gcf().clf()


def savefig(*a, **k):
    gcf().savefig(*a, **k)


def __getattr__(n):
    if n.startswith("__"):
        raise AttributeError(n)
    if n in ("ylim", "xlim"):
        return gca().get_ylim
    if n in ("plot", "semilogx", "semilogy", "loglog", "text", "fill", "scatter", "fill_between"):
        return getattr(gca(), n)
    if n in ("xlabel", "ylabel"):
        return getattr(gca(), "set_" + n)
    return Nothing()
