"""C23 plots of charge stability diagrams."""
import os
import re

import numpy as np
import matplotlib

matplotlib.use("Agg")
from matplotlib import pyplot as plt

from common import WORK, layout, quant
from simcats.support_functions import plot_csd


def limits(rng, const=False):
    a = rng.randrange(-400, 200)
    b = a + rng.choice([-1, 1]) * rng.randrange(20, 400)
    if const:
        b = a
    return [a * 1000 + rng.choice([0, rng.randrange(0, 1000)]), b * 1000]


def numbers(label):
    return [quant(float(x), 1e6) for x in re.findall(r"[-+]?\d+(?:\.\d+)?", label.replace("\u2212", "-"))]


def observe2d(ax, ids, c):
    im = ax.images[0]
    a = np.asarray(im.get_array())
    left, right, bottom, top = im.get_extent()
    n2, n1 = a.shape
    # centres of the pixels in data coordinates; row 0 is at the top for origin "upper"
    xs = left + (np.arange(n1) + .5) * (right - left) / n1
    ys = bottom + (np.arange(n2) + .5) * (top - bottom) / n2
    if im.origin == "upper":
        ys = ys[::-1]
    # place on the screen
    px = ax.transData.transform(np.stack([xs, np.full(n1, ys[0])], axis=1))[:, 0]
    py = ax.transData.transform(np.stack([np.full(n2, xs[0]), ys], axis=1))[:, 1]
    ox, oy = np.argsort(px), np.argsort(py)
    shown = a[np.ix_(oy, ox)]
    c["shown"] = [[ids.get(float(v), -1) for v in row] for row in shown]
    x0, x1, y0, y1 = xs[ox[0]], xs[ox[-1]], ys[oy[0]], ys[oy[-1]]
    c["xticks"] = quant((np.array(ax.get_xticks(), dtype=float) - x0) / (x1 - x0), 1e4)
    c["yticks"] = quant((np.array(ax.get_yticks(), dtype=float) - y0) / (y1 - y0), 1e4)
    c["ylabels"] = [numbers(t.get_text()) for t in ax.get_yticklabels()]
    # size of a pixel on the screen, as the axes are drawn with their aspect
    asp = ax.get_aspect()
    asp = 1.0 if asp == "equal" else asp
    if asp == "auto":
        c["aspect"] = -1
    else:
        c["aspect"] = quant(asp * abs((y1 - y0) / (n2 - 1)) / abs((x1 - x0) / (n1 - 1)), 1e3)


def observe1d(ax, ids, c):
    ln = ax.lines[0]
    x, y = np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float)
    px = ax.transData.transform(np.stack([x, y], axis=1))[:, 0]
    o = np.argsort(px)
    c["shown"] = [ids.get(float(v), -1) for v in y[o]]
    x0, x1 = x[o[0]], x[o[-1]]
    c["xticks"] = quant((np.array(ax.get_xticks(), dtype=float) - x0) / (x1 - x0), 1e4)
    lo, hi = y.min(), y.max()
    t = np.array(ax.get_yticks(), dtype=float)
    c["yticks"] = quant((t - lo) / (hi - lo), 1e4) if hi > lo else [0] * len(t)


def case(rng, i):
    dim = rng.choice([1, 2])
    v1, v2 = limits(rng), limits(rng)
    if dim == 1 and rng.random() < .5:
        if rng.random() < .5:
            v1 = limits(rng, const=True)
        else:
            v2 = limits(rng, const=True)
    shp = (rng.randrange(2, 9), rng.randrange(2, 9)) if dim == 2 else (rng.randrange(2, 20),)
    n = int(np.prod(shp))
    vals = [float(x) for x in rng.sample(range(-1000, 1000), n)]
    if rng.random() < .3:
        vals = [rng.choice(vals[:3]) for _ in range(n)]
    vals = [x / 64 for x in vals]
    csd = layout(rng, np.array(vals).reshape(shp))
    ids = {v: k for k, v in enumerate(sorted(set(vals)))}
    L1, L2 = (layout(rng, np.array(v) * 1e-6) for v in (v1, v2))
    kw, sort, nx, ny = {}, True, 5, 5
    if rng.random() < .6:
        sort = rng.random() < .4
        kw["sort_volts"] = sort
    if rng.random() < .4:
        nx = kw["num_xticks"] = rng.randrange(2, 8)
    if rng.random() < .4:
        ny = kw["num_yticks"] = rng.randrange(2, 8)
    title = rng.choice([None, "A title"])
    if title:
        kw["title"] = title
    labels, unit, sens = ["g1", "g2"], "V", "Sensor signal [a.u.]"
    if rng.random() < .4:
        labels = kw["gate_labels"] = ["left", "right"]
    if rng.random() < .4:
        unit = kw["voltage_unit"] = "mV"
    if rng.random() < .4:
        sens = kw["sensor_label"] = "current"
    path = None
    if i < 2:
        path = kw["save_path"] = os.path.join(WORK, f"plot{i}.png")
    before = csd.copy(), L1.copy(), L2.copy(), list(labels)
    c = dict(dim=dim, v1=v1, v2=v2, sort=sort, nx=nx, ny=ny, err="", changed=False, aspect=0, wanted=0, flat=len(ids) == 1,
             xticks=[], yticks=[], xlabels=[], ylabels=[], shown=[], saved=False, wantsave=path is not None,
             csd=[[ids[float(x)] for x in row] for row in csd] if dim == 2 else [ids[float(x)] for x in csd])
    if dim == 2:
        c["wanted"] = quant((abs(v2[1] - v2[0]) / shp[0]) / (abs(v1[1] - v1[0]) / shp[1]), 1e3)
    plt.close("all")
    plt.figure()
    try:
        plot_csd(csd, L1, L2, **kw)
        fig = plt.gcf()
        ax = fig.axes[0]
        if dim == 2:
            observe2d(ax, ids, c)
            texts = [ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), fig.axes[1].get_ylabel() if len(fig.axes) > 1 else "no colorbar"]
            want = [f"{labels[0]} [{unit}]", f"{labels[1]} [{unit}]", title or "", sens]
        else:
            observe1d(ax, ids, c)
            texts = [ax.get_xlabel(), ax.get_ylabel(), ax.get_title()]
            want = [f"({labels[0]};{labels[1]}) [{unit}]", sens, title or ""]
        c["xlabels"] = [numbers(t.get_text()) for t in ax.get_xticklabels()]
        c["texts"], c["wantedtexts"] = texts, want
    except Exception as e:
        c["err"], c["texts"], c["wantedtexts"] = type(e).__name__, [], []
    plt.close("all")
    c["changed"] = not (np.array_equal(before[0], csd) and np.array_equal(before[1], L1) and np.array_equal(before[2], L2) and before[3] == labels)
    if path:
        c["saved"] = os.path.exists(path)
        if c["saved"]:
            os.remove(path)
    return dict(tla=c, desc=dict(shape=shp, g1=v1, g2=v2, sorted=sort, ticks=[nx, ny], xlabels=c["xlabels"], ylabels=c["ylabels"], error=c["err"]))


def run(chk):
    chk.model("PlotMC")
    cases = [case(chk.rng, i) for i in range(90 if chk.quick else 2500)]
    chk.validate("PlotTrace", cases, workers=6, timeout=1500)
    chk.assumptions += ["images with at least two pixels per axis", "tick labels carry three digits"]
