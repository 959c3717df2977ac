"""What the figures show: every figure is read back when it is shown, and closed as by the user."""
import contextlib
import re

import numpy as np


def read(fig):
    out = []
    for ax in fig.axes:
        bars = []
        for p in ax.patches:
            if hasattr(p, "get_height"):
                x, y, w, h = (float(v) for v in (p.get_x(), p.get_y(), p.get_width(), p.get_height()))
                bars.append((x + w / 2, y, h, tuple(float(c) for c in p.get_facecolor())))
        lines = [(np.asarray(li.get_xdata(), float).reshape(-1), np.asarray(li.get_ydata(), float).reshape(-1), str(li.get_label()))
                 for li in ax.lines]
        legend = ax.get_legend()
        out.append({"bars": bars, "lines": lines, "title": ax.get_title(), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(),
                    "legend": [t.get_text() for t in legend.get_texts()] if legend else [], "scale": ax.get_yscale()})
    return out


@contextlib.contextmanager
def shown(screen="fine"):
    """The figures shown meanwhile, as lists of axes; or a screen on which none can be shown, or not even started."""
    import matplotlib.figure
    import matplotlib.pyplot as plt
    plt.close("all")
    seen = []
    real, method, start = plt.show, matplotlib.figure.Figure.show, plt.figure

    def refuse(*a, **k):
        raise RuntimeError("cannot connect to a display")

    def show(*a, **k):
        for n in plt.get_fignums():
            seen.append(read(plt.figure(n)))
        plt.close("all")

    def show_one(self, *a, **k):
        seen.append(read(self))
        plt.close(self)

    plt.show, matplotlib.figure.Figure.show = (show, show_one) if screen == "fine" else (refuse, refuse)
    if screen == "none":
        plt.figure = refuse
    try:
        yield seen
    finally:
        plt.show, matplotlib.figure.Figure.show, plt.figure = real, method, start
        plt.close("all")


def number(text):
    found = re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", text)
    return float(found[-1]) if found else None
