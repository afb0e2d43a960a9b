"""C18 generalised logistic functions: barriers, final rises, inverse."""
import math

import numpy as np

from common import call, layout, quant
from simcats.sensor import SensorRiseGLF
from simcats.sensor.barrier_function import BarrierFunctionGLF, BarrierFunctionMultiGLF
from simcats.support_functions import glf, inverse_glf, multi_glf

NAMES = dict(al="asymptote_left", ar="asymptote_right", g="growth_rate", nu="asymmetry", q="shape_factor", c="denominator_offset", o="offset")
SCALE = dict(al=1e-3, ar=1e-3, g=1.0, nu=1e-2, q=1e-2, c=1e-2, o=1e-6)
ORDER = ["al", "ar", "g", "nu", "q", "c", "o"]


def params(rng, c=True):
    al = rng.choice([0, 0, rng.randrange(-500, 500)])
    while True:
        ar = al + rng.choice([1, 1, 1, -1]) * rng.randrange(20, 1500)
        if -1000 < ar < 2000:
            break
    nu = rng.choice([5, 10, 35, 50, 100, 100, 130, 200, 400])
    return dict(al=al, ar=ar, g=rng.choice([1, 1, 1, -1]) * rng.choice([100, 350, 1200, 2500, 4000]), nu=nu, q=rng.choice([10, 50, 100, 200, 370]),
                c=rng.choice([100, 100, 50, 150]) if c and nu >= 50 else 100, o=rng.choice([0, rng.randrange(-50000, 50000)]))


def num(p):
    return {k: p[k] * SCALE[k] for k in p}


def kwargs(rng, p, rise=False):
    kw = {NAMES[k]: v for k, v in num(p).items()}
    if p["c"] == 100 and rng.random() < 0.5:
        del kw["denominator_offset"]
    if rise:
        kw["mu0"] = kw.pop("offset")
    elif p["o"] == 0 and rng.random() < 0.5:
        del kw["offset"]
    return kw


def points(rng, ps, origin=0):
    """Potentials (1e-6), mostly where the functions change, and the object handed over."""
    n = rng.choice([0, 0, 1, 3, 6])
    x = []
    for _ in range(max(n, 1)):
        p = rng.choice(ps)
        if rng.random() < 0.1:
            x.append(rng.choice([-1, 1]) * rng.randrange(10 ** 5, 10 ** 6))
        else:
            x.append(origin + p["o"] + int(rng.uniform(-8, 8) * 1e6 / abs(p["g"])))
    if n == 0:
        return x, rng.choice([float, np.float64])(x[0] * 1e-6)
    a = np.array(x) * 1e-6
    if n == 6 and rng.random() < 0.5:
        a = a.reshape(2, 3)
    return x, layout(rng, a)


def values(out, a, err):
    if err is not None:
        return [], err
    if np.shape(out) != np.shape(a):
        return [], "shape"
    return quant(np.atleast_1d(np.ravel(out)), 1e5), ""


def event(f, a, **e):
    before = np.array(a)
    out, err = call(f, a)
    e["out"], e["err"] = values(out, a, err)
    e["same"] = bool(np.array_equal(before, a))
    return e


def function(rng):
    n = rng.choice([1, 1, 2, 3])
    ps = [params(rng) for _ in range(n)]
    x, a = points(rng, ps)
    if n == 1 and rng.random() < 0.7:
        kw = kwargs(rng, ps[0])
        if rng.random() < 0.3:
            f = lambda z: glf(z, *[num(ps[0])[k] for k in ORDER])
        else:
            f = lambda z: glf(potential=z, **kw)
    else:
        flat = [num(p)[k] for p in ps for k in ORDER]
        f = lambda z: multi_glf(z, *flat)
    return event(f, a, ev="call", ps=ps, x=x)


def inverse(rng):
    p = params(rng)
    q = num(p)
    n = rng.choice([0, 1, 4])
    v = []
    for _ in range(max(n, 1)):
        e = rng.uniform(-2.5, 2.5)
        v.append(round((q["al"] + (q["ar"] - q["al"]) / (q["c"] + q["q"] * math.exp(-e)) ** (1 / q["nu"])) * 1e5))
    lo, hi = sorted([q["al"], q["al"] + (q["ar"] - q["al"]) / q["c"] ** (1 / q["nu"])])
    v = [x for x in v if lo + 0.02 * (hi - lo) < x * 1e-5 < hi - 0.02 * (hi - lo)] or [round((lo + hi) * 5e4)]
    a = np.array(v) * 1e-5 if n else v[0] * 1e-5
    v = v if n else v[:1]
    before = np.array(a)
    kw = kwargs(rng, p)
    out, err = call(inverse_glf, value=a, **kw) if rng.random() < 0.6 else call(inverse_glf, a, *[num(p)[k] for k in ORDER])
    e = dict(ev="inv", p=p, v=v, out=[], err=err or "", same=bool(np.array_equal(before, a)))
    if err is None:
        if np.shape(out) != np.shape(a):
            e["err"] = "shape"
        else:
            e["out"] = quant(np.atleast_1d(np.ravel(out)) - q["o"], 1e8)
    return e


def thresholds(obj, kind, p):
    off = p["o"] * 1e-6 if kind != "multi" else 0
    pin, err = (0, None) if kind == "rise" else call(lambda: obj.pinch_off)
    full, err2 = call(lambda: obj.fully_conductive)
    e = dict(ev="thr", pin=0, full=0, err=err or err2 or "", same=True)
    if not e["err"]:
        e["pin"], e["full"] = quant(0 if kind == "rise" else float(pin) - off, 1e8), quant(float(full) - off, 1e8)
    return e


def reachable(st):
    """The thresholds are values the function takes (with some distance to its asymptote)."""
    p = st["p"]
    if p["c"] != 100 and p["nu"] < 50:
        return False
    top = (p["c"] / 100) ** (-100 / p["nu"])
    up = st["kind"] == "rise" or p["ar"] >= p["al"]
    return p["c"] == 100 or all((x if up else 1000 - x) / 1000 < 0.95 * top for x in (st.get("pin", 0 if up else 1000), st["full"]))


def history(chk, rng):
    kind = rng.choice(["glf", "glf", "multi", "rise", "rise"])
    ev = []
    ps = [params(rng, c=rng.random() < 0.5) for _ in range(rng.choice([1, 2, 3]) if kind == "multi" else 1)]
    p = ps[0]
    st = dict(kind=kind)
    p0 = lambda: params(rng, c=rng.random() < 0.5)
    pct = lambda: rng.choice([1, 10, 50, 100, 300, 500, 900, 950, 990])
    if kind == "multi":
        st.update(ps=ps, pin=rng.randrange(-99999, 99999), full=rng.randrange(-99999, 99999))
        obj, err = call(BarrierFunctionMultiGLF, st["pin"] * 1e-6, st["full"] * 1e-6, *[num(x)[k] for x in ps for k in ORDER])
    elif kind == "glf":
        st.update(p=p, pin=pct(), full=pct())
        while not reachable(st):
            st.update(p=p0(), pin=pct(), full=pct())
        ps = [p := st["p"]]
        obj, err = call(BarrierFunctionGLF, pinch_off_percentage=st["pin"] / 1000, fully_conductive_percentage=st["full"] / 1000, **kwargs(rng, p))
    else:
        st.update(p=p, full=rng.choice([990, pct()]))
        while not reachable(st):
            st.update(p=p0(), full=rng.choice([990, pct()]))
        ps = [p := st["p"]]
        kw = kwargs(rng, p, rise=True)
        if st["full"] != 990 or rng.random() < 0.5:
            kw["fully_conductive_percentage"] = st["full"] / 1000
        obj, err = call(SensorRiseGLF, **kw)
    ev.append(dict(ev="make", state=dict(st), raised=err or "", same=True))
    if err:
        return {"tla": ev}
    for _ in range(rng.randrange(2, 9)):
        k = rng.randrange(4)
        if k == 0:
            if rng.random() < 0.5:
                ev.append(thresholds(obj, kind, p))
            e = dict(ev="set", ok=True, same=True)
            if kind == "multi":
                f = rng.choice(["pin", "full", "ps", "ps"])
                if f == "ps":
                    new = [params(rng) for _ in range(rng.choice([1, 2]))]
                    flat = [num(x)[y] for x in new for y in ORDER]
                    if rng.random() < 0.4:
                        flat = flat[:-rng.randrange(1, 7)]
                        e.update(ok=False, value=0)
                    else:
                        ps = new
                        e["value"] = new
                    _, err = call(setattr, obj, "params", tuple(flat))
                else:
                    e["value"] = rng.randrange(-99999, 99999)
                    _, err = call(setattr, obj, "pinch_off" if f == "pin" else "fully_conductive", e["value"] * 1e-6)
            else:
                f = rng.choice(["al", "ar", "g", "nu", "nu", "q", "c", "c", "o", "full"] + ["pin"] * (kind == "glf"))
                if f in ("pin", "full"):
                    e["value"] = pct()
                    if not reachable(dict(st, **{f: e["value"]})):
                        continue
                    st[f] = e["value"]
                    _, err = call(setattr, obj, "pinch_off_percentage" if f == "pin" else "fully_conductive_percentage", e["value"] / 1000)
                elif f == "nu" and rng.random() < 0.5:
                    e.update(ok=False, value=0)
                    _, err = call(setattr, obj, "asymmetry", rng.choice([0, 0.0, -0.1, -1]))
                else:
                    v = params(rng)[f]
                    if f == "al":
                        v = p["ar"] + rng.choice([-1, -1, 1]) * rng.randrange(100, 900)
                    if f == "ar":
                        v = p["al"] + rng.choice([1, 1, -1]) * rng.randrange(100, 900)
                    if not reachable(dict(st, p=dict(p, **{f: v}))):
                        continue
                    st["p"] = p = dict(p, **{f: v})
                    ps = [p]
                    e["value"] = v
                    _, err = call(setattr, obj, "mu0" if kind == "rise" and f == "o" else NAMES[f], v * SCALE[f])
            e.update(field=f, raised=err or "")
            ev.append(e)
            if rng.random() < 0.5:
                ev.append(thresholds(obj, kind, p))
                chk.count("thresholds")
        elif k == 1:
            ev.append(thresholds(obj, kind, p))
            chk.count("thresholds")
        else:
            fc, at = 0, 0
            if kind == "rise":
                t = thresholds(obj, kind, p)
                if t["err"]:
                    ev.append(t)
                    break
                fc, at = t["full"], rng.choice([0, rng.randrange(-50000, 50000)])
                x, a = points(rng, [dict(p, o=at - fc // 100)])
                f = rng.choice([lambda z: obj.sensor_function(z, at * 1e-6), lambda z: obj.sensor_function(mu_sens=z, offset=at * 1e-6)])
            else:
                x, a = points(rng, ps)
                f = rng.choice([lambda z: obj.get_value(z), lambda z: obj.get_value(potential=z)])
            ev.append(event(f, a, ev="eval", x=x, at=at, fc=fc))
            chk.count("values", len(x))
    return {"tla": ev}


def run(chk):
    chk.model("GlfMC")
    rng = chk.rng
    n = 1 if chk.quick else 12
    cases = [{"tla": [function(rng) for _ in range(3)]} for _ in range(400 * n)] + [{"tla": [inverse(rng) for _ in range(3)]} for _ in range(300 * n)]
    for kind in ("asymmetry", "params"):
        # constructors refuse what setters refuse
        for _ in range(10):
            p = params(rng, c=False)
            if kind == "params":
                _, err = call(BarrierFunctionMultiGLF, 0.1, 0.2, *[num(p)[k] for k in ORDER][:-rng.randrange(1, 7)])
            else:
                kw = kwargs(rng, p, rise=rng.random() < 0.5)
                kw["asymmetry"] = rng.choice([0, -1, -0.5])
                _, err = call(SensorRiseGLF, **kw) if "mu0" in kw else call(BarrierFunctionGLF, pinch_off_percentage=0.1, fully_conductive_percentage=0.9, **kw)
            cases.append({"tla": [dict(ev="set", ok=False, field="nu", value=0, raised=err or "", same=True)]})
    cases += [history(chk, rng) for _ in range(700 * n)]
    chk.validate("GlfTrace", cases, workers=6)
