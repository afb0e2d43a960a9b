"""C21 geometry and distribution helpers."""
import math

import numpy as np

from common import call, layout, quant
from simcats.support_functions import (cauchy_cdf, fermi_dirac_derivative, is_point_below_line, line_circle_intersection, line_line_intersection, multi_cauchy_cdf,
                                       multi_sigmoid_cdf, pixel_to_volt_1d, rotate_points, sigmoid_cdf, signed_dist_points_line)

PYTHAGORAS = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (1, 0, 1), (0, 1, 1), (4, 3, 5), (7, 24, 25)]
UNITS = [1.0, 0.25, 2.0 ** -10, 8.0]


def number(rng, x):
    k = rng.randrange(4)
    return [float(x), np.float64(x), int(x) if float(x).is_integer() else float(x), np.float32(x) if float(np.float32(x)) == x else float(x)][k]


def line(rng, u, vertical=True):
    """A line in quarters, and its record."""
    if vertical and rng.random() < .3:
        x = rng.randrange(-12, 13)
        return dict(v=True, p=0, c=x), x * u
    p = rng.choice([0, 3, -3, rng.randrange(-20, 21)])
    c = rng.choice([4 * rng.randrange(-12, 13), rng.randrange(-50, 51)])
    return dict(v=False, p=p, c=c), (p / 4, c / 4 * u)


def seq(rng, ln):
    """The two numbers of a line equation as tuple, list or array."""
    if not isinstance(ln, tuple):
        return number(rng, ln)
    k = rng.randrange(3)
    return ln if k == 0 else list(ln) if k == 1 else np.array(ln)


def same(a, b):
    return repr(a) == repr(b)


def flat(rng):
    """y' = s y + k x turns lines into nearly horizontal or nearly parallel ones; exact in floating point."""
    return rng.choice([(2.0 ** -30, 0), (2.0 ** -20, 3), (2.0 ** -20, -1), (2.0 ** -12, 1), (2.0 ** 12, 0)])


def below(rng):
    u = rng.choice(UNITS)
    rec, ln = line(rng, u, vertical=False)
    pt = [rng.randrange(-12, 13), rng.randrange(-12, 13)]
    if rng.random() < .4:  # close to the line
        pt[1] = (rec["p"] * pt[0] + rec["c"]) // 4 + rng.randrange(-1, 2)
    c = dict(f="below", pt=pt, line=rec, valid=True)
    arg = (float(ln[0]), float(ln[1]))
    if rec["p"] == 0 and rng.random() < .6:
        arg = number(rng, ln[1])
    elif rng.random() < .1:
        arg = rng.choice([list(arg), arg + (1.0,), np.array(arg), "line", None, (1.0,)])
        c["valid"] = False
    y = pt[1] * u
    if isinstance(ln, tuple) and type(arg) is tuple and len(arg) == 2 and rng.random() < .4:
        s, k = flat(rng)
        arg, y = (arg[0] * s + k, arg[1] * s), y * s + k * pt[0] * u
    p = rng.choice([tuple, list, np.array])([pt[0] * u, y])
    before = (repr(p), repr(arg))
    r, e = call(is_point_below_line, p, arg)
    c.update(out=bool(r), err=e or "", changed=before != (repr(p), repr(arg)))
    return c, dict(point=repr(p), line=repr(arg))


def cross(rng):
    u = rng.choice(UNITS)
    r1, l1 = line(rng, u)
    r2, l2 = line(rng, u)
    if rng.random() < .2:
        r2 = dict(r1)
        l2 = l1
        if rng.random() < .5:
            r2["c"] += 4
            l2 = (l1[0], l1[1] + u) if isinstance(l1, tuple) else l1 + 4 * u
    if not r1["v"] and not r2["v"] and r1["p"] != r2["p"] and abs(r1["p"] - r2["p"]) < 2 and abs(r1["c"] - r2["c"]) > 200:
        r2["c"] = r1["c"]
        l2 = (l2[0], l1[1])
    s, k = 1.0, 0
    if rng.random() < .4:
        s, k = flat(rng)
        l1, l2 = [(x[0] * s + k, x[1] * s) if isinstance(x, tuple) else float(x) for x in (l1, l2)]
        a, b = [rng.choice([tuple, list, np.array])(x) if isinstance(x, tuple) else x for x in (l1, l2)]
    else:
        a, b = seq(rng, l1), seq(rng, l2)
    valid = True
    if rng.random() < .08:
        valid = False
        bad = rng.choice([[1.0, 2.0, 3.0], (1.0,), np.array([1.0, 2, 3])])
        if rng.random() < .5:
            a = bad
        else:
            b = bad
    before = (repr(a), repr(b))
    r, e = call(line_line_intersection, a, b)
    if r is not None and np.shape(r) == (2,):
        r = (r[0], (r[1] - k * r[0]) / s)
    c = dict(f="cross", l1=r1, l2=r2, valid=valid, out=[0, 0] if r is None else quant(np.asarray(r, dtype=float) / u, 1e4), err=e or "",
             changed=before != (repr(a), repr(b)))
    return c, dict(line1=repr(a), line2=repr(b), out=repr(r), error=e)


def circle(rng):
    u = rng.choice(UNITS)
    a, b = rng.randrange(-9, 10), rng.randrange(-9, 10)
    r = rng.choice([rng.randrange(1, 13), 5, 4, 8, 1, rng.choice([0, -1, -5])])
    rec, ln = line(rng, u)
    k = rng.random()
    if r > 0 and k < .4:   # tangents
        if rec["v"]:
            rec["c"] = a + rng.choice([-1, 1]) * r
            ln = rec["c"] * u
        else:
            rec["p"] = p = rng.choice([0, 3, -3])
            n = 4 if p == 0 else 5
            # p a - 4 b + c = +- r n
            rec["c"] = rng.choice([-1, 1]) * r * n - p * a + 4 * b
            ln = (p / 4, rec["c"] / 4 * u)
    elif k < .7:   # not far from the circle
        if rec["v"]:
            rec["c"] = a + rng.randrange(-abs(r) - 2, abs(r) + 3)
            ln = rec["c"] * u
        else:
            rec["c"] = 4 * b - rec["p"] * a + rng.randrange(-60, 61)
            ln = (ln[0], rec["c"] / 4 * u)
    arg = ln if isinstance(ln, tuple) else number(rng, ln)
    centre = (a * u, b * u)
    out, e = call(line_circle_intersection, arg, centre, number(rng, r * u))
    c = dict(f="circle", line=rec, a=a, b=b, r=r, out=[] if out is None else [quant(np.array(q, dtype=float) / u, 1e3) for q in out], err=e or "",
             changed=False)
    return c, dict(line=repr(arg), centre=centre, radius=r * u, out=repr(out), error=e)


def dist(rng):
    u = rng.choice(UNITS)
    dx, dy, n = rng.choice(PYTHAGORAS)
    d = [rng.choice([-1, 1]) * dx, rng.choice([-1, 1]) * dy]
    q = [rng.randrange(-40, 41), rng.randrange(-40, 41)]
    k = rng.randrange(1, 5)
    pts = [[rng.randrange(-60, 61), rng.randrange(-60, 61)] for _ in range(rng.choice([1, 2, 5]))]
    if rng.random() < .3:
        pts[0] = [q[0] + 2 * d[0], q[1] + 2 * d[1]]
    P = layout(rng, np.array(pts) * u)
    L = layout(rng, np.array([q, [q[0] + k * d[0], q[1] + k * d[1]]]) * u)
    b = P.copy(), L.copy()
    out, e = call(signed_dist_points_line, P, L)
    c = dict(f="dist", pts=pts, q=q, d=d, n=n, out=[] if out is None else quant(np.atleast_1d(out) / u, 1e3), err=e or "",
             changed=not (np.array_equal(b[0], P) and np.array_equal(b[1], L)))
    return c, dict(points=pts, line=(q, d), out=repr(out), error=e)


ANGLES = [(math.pi / 4, (70711, 70711)), (-math.pi / 4, (70711, -70711)), (0.0, (100000, 0)), (math.pi / 2, (0, 100000)), (math.pi, (-100000, 0)),
          (math.atan2(4, 3), (60000, 80000)), (-math.atan2(5, 12), (92308, -38462)), (2 * math.pi - math.atan2(3, 4), (80000, -60000)),
          (7 * math.pi / 6, (-86603, -50000)), (9 * math.pi / 4, (70711, 70711))]


def rotate(rng):
    u = rng.choice(UNITS)
    ang, cs = rng.choice(ANGLES)
    pts = [[rng.randrange(-60, 61), rng.randrange(-60, 61)] for _ in range(rng.choice([1, 1, 2, 6]))]
    P = layout(rng, np.array(pts, dtype=float) * u)
    if len(pts) == 1 and rng.random() < .6:
        P = P[0]
    b = P.copy()
    args = (P,) if ang == math.pi / 4 and rng.random() < .7 else (P, ang)
    out, e = call(rotate_points, *args)
    shape = out is None or np.shape(out) == P.shape
    c = dict(f="rotate", pts=pts, cs=cs, out=[] if out is None or not shape else quant(np.reshape(out, (-1, 2)) / u, 1e5), err=e or "",
             changed=not np.array_equal(b, P))
    return c, dict(points=pts, angle=ang, out=repr(out), error=e)


def pixel(rng):
    n = rng.choice([1, 2, 3, 7, 50, 99, 100])
    k = rng.randrange(0, n + 1)
    a, b = rng.randrange(-200000, 200001), rng.randrange(-200000, 200001)
    lim = layout(rng, np.array([a, b]) * 1e-6)
    before = lim.copy()
    out, e = call(pixel_to_volt_1d, k, n, lim)
    c = dict(f="pixel", n=n, pixel=k, start=a, stop=b, out=quant(0.0 if out is None else np.clip(out, -5, 5), 1e6), err=e or "", changed=not np.array_equal(before, lim))
    return c, dict(pixel=k, of=n, limits=[a, b], out=repr(out), error=e)


def cdf(rng):
    fam = rng.choice(["sigmoid", "cauchy"])
    u = rng.choice([1e-3, 1e-5, 1.0])
    n = rng.choice([1, 1, 2, 3, 6])
    ps = []
    for _ in range(n):
        ps += [rng.randrange(-3000, 3001), rng.choice([0, rng.randrange(1, 40), rng.randrange(40, 2000)]) if rng.random() < .7 else 5]
    xs = set()
    while len(xs) < rng.choice([1, 4, 8]):
        i = rng.randrange(n)
        x = rng.choice([rng.randrange(-6000, 6001), ps[2 * i] + rng.randrange(-9, 10) * max(ps[2 * i + 1], 1) // 4])
        if all(x != ps[2 * j] for j in range(n) if ps[2 * j + 1] == 0):
            xs.add(x)
    xs = list(xs)
    rng.shuffle(xs)
    X = layout(rng, np.array(xs) * u)
    if len(xs) > 2 and rng.random() < .3:
        X = X[: 2 * (len(xs) // 2)].reshape(2, -1)
        xs = xs[: 2 * (len(xs) // 2)]
    if 0 not in ps[1::2] and len(xs) == 1 and rng.random() < .5:
        X = float(X[0])
    P = [p * u for p in ps]
    b, bp = np.array(X, copy=True), list(P)
    if n == 1 and rng.random() < .5:
        out, e = call({"sigmoid": sigmoid_cdf, "cauchy": cauchy_cdf}[fam], X, *P)
    else:
        out, e = call({"sigmoid": multi_sigmoid_cdf, "cauchy": multi_cauchy_cdf}[fam], X, P if rng.random() < .5 else tuple(P))
    c = dict(f="cdf", fam=fam, x=xs, ps=ps, out=[] if out is None else quant(np.ravel(out), 1e5), err=e or "",
             changed=not (np.array_equal(b, X) and bp == P))
    return c, dict(family=fam, x=xs, params=ps, unit=u, out=repr(out), error=e)


def sech(rng):
    u = rng.choice([1e-3, 1e-5, 1.0])
    g = rng.choice([rng.randrange(1, 40), rng.randrange(40, 2000)])
    x0 = rng.choice([0, rng.randrange(-3000, 3001)])
    xs = [x0 + int(rng.uniform(-5, 5) * g) for _ in range(rng.choice([1, 2, 7]))]
    X = layout(rng, np.array(xs) * u)
    b = X.copy()
    args = dict(x=X, x0=x0 * u, sigma=g * u)
    out, e = call(fermi_dirac_derivative, **args) if rng.random() < .5 else call(fermi_dirac_derivative, *args.values())
    c = dict(f="sech", x=xs, x0=x0, g=g, out=[] if out is None else quant(np.asarray(out) * g * u, 1e5), err=e or "", changed=not np.array_equal(b, X))
    return c, dict(x=xs, x0=x0, sigma=g, out=repr(out))


def run(chk):
    rng = chk.rng
    chk.model("GeoMC", "GeoMC" if chk.quick else "GeoMCdeep", workers=4, timeout=1500)
    cases = []
    n = 60 if chk.quick else 1500
    for f, k in [(below, 1), (cross, 2), (circle, 3), (dist, 1), (rotate, 1), (pixel, 1), (cdf, 3), (sech, 1)]:
        for _ in range(n * k):
            tla, desc = f(rng)
            cases.append(dict(tla=tla, desc=dict(helper=tla["f"], **desc)))
    chk.validate("GeoTrace", cases, workers=6, timeout=1500)
    chk.assumptions += ["coordinates are exactly representable; tangents are decided exactly", "cumulative distributions are compared within 3e-4"]
