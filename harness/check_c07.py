"""C07 TCT curves and their Bezier anchors."""
import functools

import numpy as np

from common import call, quant
from geometry import ROTATIONS, make_tct, points, tct_params
from simcats.ideal_csd.geometric import calculate_all_bezier_anchors, initialize_tct_functions, tct_bezier


def case(rng):
    p = make_tct(rng)
    unit = rng.choice([1e-4, 3.7e-5, 1e-3, 0.0123, 1.0])
    par = tct_params(p, unit, rng.choice(["array", "list"]))
    par0 = np.array(par, dtype=float)
    m = rng.choice([0, 1, 1, 2, 3, 5])
    n = rng.choice([2, 3, 4, 5, 7, 8])
    lut = rng.choice([None, None, 50, 60, 200, 400, 1001])
    cnt = 10 if lut is None else 24
    pts = points(p, m, n, rng, cnt)
    per = p["L1"] + p["L2"]
    others = [rng.randrange(p["x0"] - 2 * per, p["x0"] + (m + 3) * per) for _ in range(cnt // 2)]
    x = np.array([q[3] / (n * n) * unit for q in pts] + [o * unit for o in others])
    facts = dict.fromkeys(["raised an exception", "array and single values differ", "the supplied abscissae were modified",
                           "the TCT parameters were modified", "order of the abscissae matters"], True)
    # through the function itself or through the partially initialised one
    if m and rng.random() < 0.5:
        fs = initialize_tct_functions(tct_params=[par, par] if rng.random() < 0.5 else par, **({} if m == 1 and rng.random() < 0.6 else {"max_peaks": m}))
        if sorted(fs) != list(range(m, m + len(fs))):
            facts["raised an exception"] = False
            fs = {m: next(iter(fs.values()))}
        f = functools.partial(fs[m], lut_entries=lut)
    else:
        f = lambda x_eval: tct_bezier(tct_params=par, x_eval=x_eval, lut_entries=lut, max_peaks=m or None)
    # the abscissae of the case, alone or among many others
    given, where = x, np.arange(len(x))
    if rng.random() < 0.2:
        size = rng.choice([60, 258, 300, 600, 1030, 2100, 4100])
        given = np.array([rng.randrange(p["x0"] - per, p["x0"] + (m + 2) * per) * unit for _ in range(size)])
        if rng.random() < 0.5:
            given.sort()
        where = np.array(rng.sample(range(size), len(x)))
        given[where] = x
    x0 = given.copy()
    y, e = call(f, x_eval=given)
    if e is not None or np.shape(y) != given.shape:
        facts["raised an exception"] = False
        y = np.full(given.shape, np.nan)
    facts["the supplied abscissae were modified"] = bool(np.array_equal(given, x0))
    y = np.asarray(y)[where]
    if e is None:
        i = rng.randrange(len(x))
        ys, e2 = call(f, x_eval=float(x[i]))
        facts["array and single values differ"] = e2 is None and np.ndim(ys) == 0 and abs(float(ys) - y[i]) <= 1e-9 * unit
        order = np.array(rng.sample(range(len(x)), 6))
        yo, e3 = call(f, x_eval=x[order])
        facts["order of the abscissae matters"] = e3 is None and bool(np.allclose(yo, y[order], rtol=0, atol=1e-9 * unit))
    facts["the TCT parameters were modified"] = bool(np.array_equal(np.array(par, dtype=float), par0))
    rot = rng.choice(ROTATIONS)
    am = rng.choice([1, 2, 3, 4])
    wrapped = rng.random() < 0.5
    anchors = []
    kw = dict(max_peaks=am, rotation=float(np.arctan2(rot[1], rot[0])))
    for name, default in (("max_peaks", 1), ("rotation", -np.pi / 4)):
        if kw[name] == default and rng.random() < 0.6:
            del kw[name]
    r, e = call(calculate_all_bezier_anchors, tct_params=[par0, par0, par0] if wrapped else par0, **kw)
    if e is None and sorted(r) == list(range(am, am + (3 if wrapped else 1))):
        if wrapped:
            j = rng.randrange(3)
            anchors, am = r[am + j], am + j
        else:
            anchors = r[am]
        # parameters in units of `unit`; rotated back they are multiples of unit/sqrt(a*a+b*b)
        anchors = quant(anchors, 1000 / (unit * np.hypot(*rot)))
    else:
        facts["raised an exception"] = False
    # exactness of float abscissae: the rotated anchors are compared in 1/1000 units
    yq = quant(y, 1000 / unit)
    c = dict(p=p, m=m, n=n, lut=lut or 0, rot=list(rot), am=am, anchors=anchors, facts=facts,
             pts=[dict(part=q[0], i=q[1], k=q[2], x=q[3], y=v) for q, v in zip(pts, yq)],
             others=[[o, v] for o, v in zip(others, yq[len(pts):])])
    return {"tla": c, "desc": {"p": p, "unit": unit, "m": m, "lut": lut, "facts": facts}}


def run(chk):
    chk.model("TctMC", cfg="TctMC" if chk.quick else "TctMCdeep", timeout=3000, workers=8)
    cases = [case(chk.rng) for _ in range(450 if chk.quick else 6000)]
    chk.count("evaluations", sum(len(c["tla"]["pts"]) + len(c["tla"]["others"]) for c in cases))
    chk.count("explicit", sum(c["tla"]["lut"] == 0 for c in cases))
    chk.validate("TctTrace", cases)
