"""Recorded ideal charge stability diagrams for ChargeTrace.tla."""
import copy

import numpy as np

from common import call, quant
from geometry import ROTATIONS, corner, make_ladder, tct_params
from simcats.ideal_csd import IdealCSDGeometric
from simcats.ideal_csd.geometric import ideal_csd_geometric


def window(rng, ps, rot, part):
    """First voltages and steps of both gates around an interesting spot."""
    a, b = rot
    if len(ps) > 200:
        x, y = corner(ps[rng.randrange(253, len(ps) - 1)], rng.randrange(-1, 4))
        y += rng.randrange(-20, 20)
        return (a * x - b * y) // (a * a + b * b), (b * x + a * y) // (a * a + b * b)
    n = rng.randrange(len(ps)) if rng.random() < 0.35 else rng.randrange(max(1, len(ps) - 1))
    if len(ps) > 5 and rng.random() < 0.7:
        n = rng.randrange(5, len(ps) - 1)
    i = rng.randrange(-1, 2 * n + 2)
    x, y = corner(ps[n], i)
    if i % 2 == 1:
        y += rng.randrange(-20, 10)
    else:
        y += rng.randrange(-10, 20)
    r2 = a * a + b * b
    return (a * x - b * y) // r2, (b * x + a * y) // r2


def some_pixels(rng, rows, cols, lab, want=110):
    """Pixels of a large scan that are looked at: some anywhere, some next to labels."""
    n = rows * cols if rows else cols
    marked = [i for i in range(n) if lab[i]]
    near = [j + d for j in rng.sample(marked, min(len(marked), want // 6))
            for d in ((-1, 0, 1) if not rows else (-cols, -1, 0, 1, cols))]
    res = {k for k in near if 0 <= k < n} | {rng.randrange(n) for _ in range(want // 2)} | {0, n - 1}
    return sorted(res)


def csd_case(rng, part, dims=None, big=False, huge=False):
    """A recorded scan; huge: hundreds or thousands of pixels, of which some are looked at."""
    k = rng.choice([2, 3, 3, 4, 5]) if rng.random() < 0.85 else rng.choice([7, 9, 11])
    if rng.random() < 0.04:
        k = 1
    if huge:
        k = rng.choice([3, 7, 9, 11])
    many = not big and not huge and rng.random() < 0.015
    if many:
        # more electrons than fit into eight bits, around the origin
        ps = make_ladder(rng, rng.randrange(257, 264), grow=False)
        x, y = corner(ps[255], 0)
        for p in ps:
            p["x0"], p["y0"] = p["x0"] - x, p["y0"] - y
    else:
        ps = make_ladder(rng, k)
    rot = rng.choice(ROTATIONS)
    unit = rng.choice([1e-4, 2.3e-4, 1e-3, 7.7e-4])
    scale = np.hypot(*rot)
    lut = rng.choice([None, 1000, 2000])
    kind = rng.choice(["sigmoid", "sigmoid", "cauchy"])
    factor = rng.choice([None, None, 2.5, 1.0, 4.0])
    dims = dims or rng.choice([1, 2])
    c1, c2 = window(rng, ps, rot, part)
    # steps in V units; the TCT units are sqrt(a^2+b^2) times finer
    fine = max(1, int(rng.choice([2, 3, 5, 9]) / scale))
    if dims == 2:
        cols, rows = (rng.randrange(2, 10), rng.randrange(2, 10)) if many else (rng.randrange(2, 22), rng.randrange(2, 22))
        if big:
            cols, rows = rng.choice([(40, 3), (3, 40), (30, 30)])
        s1, s2 = fine * rng.randrange(1, 4), fine * rng.randrange(1, 4)
        if huge:
            cols, rows = rng.choice([(120, 110), (70, 90), (300, 30), (25, 310), (130, 9), (8, 260)])
            s1, s2 = rng.choice([1, 1, 2]), rng.choice([1, 1, 2])
        elif rng.random() < 0.25:
            s1 *= rng.choice([1, 5])
            s2 *= rng.choice([1, 5])
        s1, s2 = s1 * rng.choice([1, -1]), s2 * rng.choice([1, -1])
        res = rng.choice([[cols, rows], np.array([cols, rows])])
    else:
        cols, rows = rng.choice([2, 3, 20, 45, 60]), 0
        s1, s2 = rng.randrange(-3, 4) * fine, rng.randrange(-3, 4) * fine
        if rng.random() < 0.4:
            s1, s2 = (0, s2) if rng.random() < 0.5 else (s1, 0)
        res = rng.choice([cols, [cols], np.array([cols])])
        if huge:
            cols = rng.choice([130, 257, 300, 513, 600, 1025, 1500, 2100, 4100])
            s1, s2 = rng.choice([(1, 1), (1, 2), (2, 1), (1, 0), (0, 1), (1, -1), (1, 3), (3, 1)])
            if rng.random() < 0.5:
                s1, s2 = -s1, -s2
            res = rng.choice([cols, [cols], np.array([cols])])
    r = rows or cols
    v1, v2 = c1 - s1 * (cols // 2), c2 - s2 * (r // 2)
    if huge:
        # most of the scan lies below the interesting spot
        def first(c, step, n):
            ahead = min(rng.randrange(0, 30), n // 2)
            return c - step * (n - ahead if step > 0 else ahead)
        if rows:
            v1, v2 = first(c1, s1, cols), first(c2, s2, rows)
        elif s1 * s2 >= 0:
            v1 = first(c1, s1 or s2, cols)
            v2 = c2 + s2 * (v1 - c1) // (s1 or s2)
            v1 = v1 if s1 else c1
    lim1 = [v1 * unit, (v1 + s1 * (cols - 1)) * unit]
    lim2 = [v2 * unit, (v2 + s2 * (r - 1)) * unit]
    if rng.random() < 0.7:
        lim1, lim2 = np.array(lim1), np.array(lim2)
    params = [tct_params(p, unit / scale) for p in ps]
    form = rng.choice(["arrays", "arrays", "arrays", "matrix", "lists"] + ["array", "list"] * (5 if len(ps) == 1 else 0))
    params = {"arrays": lambda: params, "matrix": lambda: np.array(params), "lists": lambda: [p.tolist() for p in params],
              "array": lambda: params[0], "list": lambda: params[0].tolist()}[form]()
    before = copy.deepcopy(params)
    # requests before this one, whose arrays are used again
    warm = rng.random() < 0.25 and isinstance(lim1, np.ndarray)
    keep = np.array(lim1), np.array(lim2)

    def warmup(f, **kw):
        lim1[...], lim2[...] = rng.choice([(keep[0], keep[1] - 5 * unit), (keep[0] - 5 * unit, keep[1]), (keep[0][::-1], keep[1]), (keep[0] - 9 * unit, keep[1] - 9 * unit)])
        call(f, volt_limits_g1=lim1, volt_limits_g2=lim2, resolution=res, **kw)
        lim1[...], lim2[...] = keep
    angle = float(np.arctan2(rot[1], rot[0]))
    kw = dict(rotation=angle, lut_entries=lut, cdf_type=kind, cdf_gamma_factor=factor)
    for name, default in (("rotation", -np.pi / 4), ("lut_entries", None), ("cdf_type", "sigmoid"), ("cdf_gamma_factor", None)):
        if kw[name] == default and rng.random() < 0.6:
            del kw[name]
    how = rng.randrange(4)
    if how < 2:
        if how == 0:
            f = IdealCSDGeometric(tct_params=params, **kw)
        else:
            f = IdealCSDGeometric(tct_params=[], rotation=0.3, lut_entries=50, cdf_type="cauchy", cdf_gamma_factor=7.0)
            f.tct_params = params
            f.rotation, f.lut_entries, f.cdf_type, f.cdf_gamma_factor = angle, lut, kind, factor
        f = f.get_csd_data
        if warm:
            warmup(f)
        out, err = call(f, volt_limits_g1=lim1, volt_limits_g2=lim2, resolution=res)
    else:
        if warm:
            warmup(ideal_csd_geometric, tct_params=params, **kw)
        out, err = call(ideal_csd_geometric, tct_params=params, volt_limits_g1=lim1, volt_limits_g2=lim2, resolution=res, **kw)
    if any(not np.array_equal(p, q) for p, q in zip(params, before)):
        err = "parameters modified"
    occ, lab = [], []
    if err is None:
        o, m = out
        want = (rows, cols) if rows else (cols,)
        if o.shape != want + (2,) or m.shape != want:
            err = f"shape {o.shape} {m.shape}"
        else:
            occ, lab = quant(o.reshape(-1, 2), 100000, 1e8), quant(np.asarray(m).reshape(-1), 1)
    only = some_pixels(rng, rows, cols, lab) if huge and err is None else []
    slope = max(max(p["sln"] / p["sld"], -p["srn"] / p["srd"]) for p in ps)
    width = max(max(p["dl"], p["dr"]) for p in ps)
    tol = 2 + (int(64 * slope * width / (lut - 1)) + 1 if lut else 0)
    f100 = int(round(100 * (factor or {"sigmoid": 2.2, "cauchy": 6.15}[kind])))
    return {"tla": dict(ps=ps, rot=list(rot), rows=rows, cols=cols, v1=[v1, s1], v2=[v2, s2], tol=tol, kind=kind, F=f100,
                        err=err or "", occ=occ, lab=lab, only=only),
            "desc": dict(form=form, tct_params=[tct_params(p, unit / scale).tolist() for p in ps], rotation=angle, lim1=list(lim1), lim2=list(lim2),
                         resolution=str(res), lut=lut, cdf=kind, factor=factor, err=err)}
