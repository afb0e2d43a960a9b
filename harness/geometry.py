"""Charge stability diagrams in integer units, shared by the checks of the geometry (spec/Tct.tla)."""
import numpy as np

# rotations whose matrices are integer up to a common factor: (a, b), angle = atan2(b, a)
ROTATIONS = [(1, -1), (1, -1), (1, -1), (1, 0), (1, 1), (4, -3), (3, -4), (2, -1), (1, -2), (5, -1)]


def make_tct(rng, first=None, small=False):
    """Integer TCT description (see Tct.tla)."""
    k = 1 if small else rng.choice([1, 2, 3])
    sld, srd = rng.choice([2, 3, 4, 5, 8]), rng.choice([2, 3, 4, 5, 8])
    sln, srn = rng.randrange(1, sld + 2), -rng.randrange(1, srd + 2)
    if rng.random() < 0.1:
        sln = 0
    elif rng.random() < 0.1:
        srn = 0
    style = rng.random()
    if style < 0.12:
        dl = dr = 0
    else:
        dl, dr = sld * rng.randrange(1, 2 + 12 * k // sld), srd * rng.randrange(1, 2 + 12 * k // srd)
    L1 = sld * (-(-2 * dl // sld) + rng.randrange(1, 8 + 60 * k // sld))
    L2 = srd * (-(-2 * dr // srd) + rng.randrange(1, 8 + 60 * k // srd))
    return dict(L1=max(L1, sld), L2=max(L2, srd), sln=sln, sld=sld, srn=srn, srd=srd, x0=rng.randrange(-300, 300),
                y0=rng.randrange(20, 600), dl=dl, dr=dr)


def corner(p, i):
    j, odd = divmod(i, 2)
    x = p["x0"] + p["dl"] + j * (p["L1"] + p["L2"])
    y = p["y0"] + p["dl"] * p["sln"] // p["sld"] + j * (p["L1"] * p["sln"] // p["sld"] + p["L2"] * p["srn"] // p["srd"])
    return (x + p["L2"], y + p["L2"] * p["srn"] // p["srd"]) if odd else (x, y)


def make_ladder(rng, n, grow=True):
    """n nested TCTs: the first valley of TCT k+1 lies above the first peak of TCT k."""
    while True:
        p = make_tct(rng)
        if p["L1"] >= 12 and p["L2"] >= 12 and p["sln"] > 0 and p["srn"] < 0:
            break
    gap = rng.randrange(18, 60)
    res = [p]
    for _ in range(n - 1):
        q = dict(res[-1])
        if rng.random() < 0.5:  # other interdot coupling
            if q["dl"] or rng.random() < 0.3:
                f = rng.choice([0, 1, 2, 3])
                q["dl"] = min(f * q["sld"], (q["L1"] - 1) // 2 // q["sld"] * q["sld"])
                q["dr"] = min(f * q["srd"], (q["L2"] - 1) // 2 // q["srd"] * q["srd"])
                if q["dl"] == 0 or q["dr"] == 0:
                    q["dl"] = q["dr"] = 0
        if grow and rng.random() < 0.3:
            q["L1"] += q["sld"] * rng.randrange(0, 3)
            q["L2"] += q["srd"] * rng.randrange(0, 3)
        # the new first valley above the old first peak
        cx, cy = corner(res[-1], 0)
        drop = q["L2"] * q["srn"] // q["srd"]
        nx, ny = cx - q["L2"] + rng.randrange(-3, 4), cy + gap - drop
        q["x0"], q["y0"] = nx - q["dl"], ny - q["dl"] * q["sln"] // q["sld"]
        res.append(q)
        gap = max(12, gap + rng.randrange(-6, 7))
    return res


def tct_params(p, unit, kind="array"):
    """The eight parameters the code takes, lengths in volts."""
    v = [p["L1"] * unit, p["L2"] * unit, p["sln"] / p["sld"], p["srn"] / p["srd"], p["x0"] * unit, p["y0"] * unit,
         (p["x0"] + p["dl"] + p["dr"]) * unit,
         (p["y0"] + p["dl"] * p["sln"] // p["sld"] + p["dr"] * p["srn"] // p["srd"]) * unit]
    return np.array(v) if kind == "array" else v


def points(p, m, n, rng, count):
    """Random points of the TCT as [part, i, k], with abscissa times n*n."""
    per = p["L1"] + p["L2"]
    res = []
    for _ in range(count):
        part = rng.choice(["rounding", "rounding", "lead", "lead", "left", "right"])
        if m == 0:
            part = rng.choice(["rounding", "lead"])
            i = rng.randrange(-5, 6)
        else:
            if part == "lead" and m == 1:
                part = "rounding"
            i = rng.randrange(0, 2 * m - 1 - (part == "lead"))
        k = rng.randrange(0, n + 1)
        if part == "left":
            k = rng.randrange(0, 60)
            x = n * n * (p["x0"] - k * p["sld"])
        elif part == "right":
            k = rng.randrange(0, 60)
            x = n * n * (corner(p, 2 * m - 2)[0] + p["dr"] + k * p["srd"])
        else:
            c = corner(p, i)[0]
            a, b = (p["dl"], p["dr"]) if i % 2 == 0 else (p["dr"], p["dl"])
            if part == "rounding":
                x = (n - k) ** 2 * (c - a) + 2 * k * (n - k) * c + k * k * (c + b)
            else:
                nxt = corner(p, i + 1)[0] - (p["dr"] if i % 2 == 0 else p["dl"])
                x = n * ((n - k) * (c + b) + k * nxt)
        res.append([part, i, k, x])
    return res
