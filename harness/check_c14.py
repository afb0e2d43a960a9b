"""C14 generic sensor: potential, Coulomb peaks, configuration."""
import copy

import numpy as np

from common import again, call, layout, quant
from simcats.sensor import SensorGeneric, SensorPeakGaussian, SensorPeakLorentzian


def rand_peak(rng):
    return dict(kind=rng.choice(["gauss", "lorentz"]), mu0=rng.choice([0, rng.randrange(-200000, 200000), rng.randrange(-200000, 200000)]),
                width=rng.choice([1, 4, 10, 40, 200, 1000, 5000, 10000]), height=rng.choice([1000, rng.randrange(-300, 3000)]), offset=rng.choice([0, 0, rng.randrange(-500, 500)]))


STANDARD = dict(mu0=0, width=10000, height=1000, offset=0)
UNIT = dict(mu0=1e-6, width=1e-4, height=1e-3, offset=1e-3)


def build_peak(p):
    cls = SensorPeakGaussian if p["kind"] == "gauss" else SensorPeakLorentzian
    names = dict(width="sigma" if p["kind"] == "gauss" else "gamma")
    # every second peak relies on the defaults of its parameters
    skip = p["mu0"] % 2 == 0
    return cls(**{names.get(f, f): p[f] * UNIT[f] for f in UNIT if not (skip and p[f] == STANDARD[f])})


def arm(rng):
    return [rng.randrange(-300, 301), rng.choice([0, rng.randrange(-300, 301)])]


class BadPeak:
    def sensor_function(self, mu_sens):
        return mu_sens


def history(chk, rng):
    ev, owned, seen = [], [], {}
    ad, ag, off, peaks = arm(rng), arm(rng), rng.randrange(-10 ** 6, 10 ** 6), None
    mode = rng.randrange(3)
    pk = [rand_peak(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    built = [build_peak(p) for p in pk]
    a1, a2 = np.array(ad) / 100, np.array(ag) / 100
    owned += [a1, a2, built] + built
    if mode == 0:
        s = SensorGeneric()
    else:
        s = SensorGeneric(sensor_peak_function=None if mode == 1 else (built[0] if len(built) == 1 and rng.random() < 0.5 else built),
                          alpha_dot=a1, alpha_gate=a2, offset_mu_sens=off * 1e-6)
        for what, v in (("ad", ad), ("ag", ag), ("off", off)):
            ev.append(dict(ev="set", what=what, value=v, ok=True, raised=""))
        if mode == 2:
            ev.append(dict(ev="set", what="peaks", value=pk, ok=True, raised=""))
    state = dict(peaks=[] if mode < 2 else [dict(p) for p in pk], lin=mode < 2, big=off)
    if mode == 0:
        state["big"] = 0

    def setter(what, value, attr, obj, ok, target=s):
        _, err = call(setattr, target, attr, obj)
        ev.append(dict(ev="set", what=what, value=value, ok=ok, raised=err or ""))

    for _ in range(rng.randrange(2, 8)):
        k = rng.randrange(11)
        if k == 0:
            v = arm(rng)
            a = np.array(v) / 100
            owned.append(a)
            w = rng.choice(["ad", "ag"])
            setter(w, v, "alpha_dot" if w == "ad" else "alpha_gate", a, True)
        elif k == 1:
            v = rng.randrange(-10 ** 6, 10 ** 6)
            setter("off", v, "offset_mu_sens", v * 1e-6, True)
        elif k == 2:
            pk = [rand_peak(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            b = [build_peak(p) for p in pk]
            owned += [b] + b
            if len(b) == 1 and rng.random() < 0.5:
                setter("peaks", pk, "sensor_peak_function", b[0], True)
            else:
                setter("peaks", pk, "sensor_peak_function", b, True)
            state.update(peaks=[dict(p) for p in pk], lin=False)
        elif k == 3 and rng.random() < 0.5:
            setter("lin", 0, "sensor_peak_function", None, True)
            state.update(peaks=[], lin=True)
        elif k == 4:
            w, attr, v = rng.choice([("ad", "alpha_dot", [1, 2]), ("ag", "alpha_gate", np.array([1.0, 2.0, 3.0])), ("ad", "alpha_dot", np.array(0.5)),
                                     ("ag", "alpha_gate", 0.5), ("off", "offset_mu_sens", "0.1"), ("off", "offset_mu_sens", None),
                                     ("off", "offset_mu_sens", [0.1]), ("peaks", "sensor_peak_function", BadPeak()),
                                     ("peaks", "sensor_peak_function", [build_peak(rand_peak(rng)), BadPeak()]), ("peaks", "sensor_peak_function", 3)])
            setter(w, 0, attr, v, False)
        elif k in (5, 6) and state["peaks"]:
            i = rng.randrange(len(state["peaks"]))
            p = state["peaks"][i]
            f = rng.choice(["mu0", "width", "height", "offset"])
            if f == "width":
                attr, bad = ("sigma" if p["kind"] == "gauss" else "gamma"), rng.random() < 0.4
                v = rng.choice([0, -3]) if bad else rng.choice([3, 30, 300])
                x = v * 1e-4
            else:
                attr, bad, v = f, False, rng.randrange(-500, 2000)
                x = v * (1e-6 if f == "mu0" else 1e-3)
            _, err = call(lambda: setattr(s.sensor_peak_function[i], attr, x))
            ev.append(dict(ev="set", what="peak", i=i + 1, field=f, value=v, ok=not bad, raised=err or ""))
            if not bad:
                p[f] = v
        elif k == 7:
            # the owner of the handed over objects goes on using them
            for o in owned:
                if isinstance(o, np.ndarray):
                    o += 7.0
                elif isinstance(o, list):
                    if o:
                        o.pop()
                else:
                    o.mu0, o.height = o.mu0 + 1e-3, 9.0
            ev.append(dict(ev="caller"))
        elif k in (8, 9):
            ev.append(pot(rng, s, seen))
            chk.count("potentials")
        else:
            ev.append(resp(rng, s, state["peaks"], state["big"]))
            chk.count("responses")
    ev += [pot(rng, s, seen), resp(rng, s, state["peaks"], state["big"])]
    return {"tla": ev}


def pot(rng, s, seen):
    """A scan; seen: the previous scan of the history, which is often repeated with one thing changed."""
    rows, cols = rng.choice([0, 0, 1, 2, 3, 5]), rng.choice([1, 2, 3, 4, 7])
    if rows == 1 and cols == 1:
        cols = 2
    big = 90
    if rng.random() < 0.02:
        rows, cols = rng.choice([(0, 130), (0, 300), (0, 520), (0, 1030), (20, 25), (260, 2), (2, 260), (33, 17)])
        big = 6
    n = max(rows, 1) * cols
    occ = [[rng.randrange(0, 60), rng.randrange(0, 60)] for _ in range(n)]
    v1, v2 = [rng.randrange(-2000, 2000), rng.randrange(-big, big)], [rng.randrange(-2000, 2000), rng.choice([0, rng.randrange(-big, big)])]
    if seen and rng.random() < 0.6:
        rows, cols, occ, v1, v2 = (copy.deepcopy(seen[k]) for k in ("rows", "cols", "occ", "v1", "v2"))
        k = rng.randrange(6)
        if k < 4:
            w = v1 if k < 2 else v2
            w[k % 2] += rng.choice([1, -1]) * rng.choice([1, 3, 50])
        elif k == 4:
            occ[rng.randrange(len(occ))][rng.randrange(2)] += rng.choice([1, 10])
    seen.update(rows=rows, cols=cols, occ=copy.deepcopy(occ), v1=list(v1), v2=list(v2))
    lim = []
    for v, m in ((v1, cols), (v2, rows or cols)):
        x = [v[0] / 10000, (v[0] + v[1] * (m - 1)) / 10000]
        lim.append(rng.choice([list, tuple, np.array, lambda y: again(rng, f"gate {len(lim)}", y), lambda y: again(rng, f"gate {len(lim)}", y)])(x))
    a = layout(rng, np.array(occ).reshape(((rows, cols, 2) if rows else (cols, 2))) / 10, "occ")
    before = [a.copy(), [float(x) for x in lim[0]], [float(x) for x in lim[1]]]
    out, err = call(s.sensor_potential, a, *lim) if rng.random() < 0.5 else call(s.sensor_potential, occupations=a, volt_limits_g1=lim[0], volt_limits_g2=lim[1])
    e = dict(ev="pot", rows=rows, cols=cols, v1=v1, v2=v2, occ=occ, out=[], err=err or "", same=True)
    if err is None:
        if np.shape(out) != a.shape[:-1]:
            e["err"] = "shape"
        else:
            e["out"] = quant(np.ravel(out), 1e6)
            e["same"] = bool(np.array_equal(before[0], a)) and before[1] == [float(x) for x in lim[0]] and before[2] == [float(x) for x in lim[1]]
    return e


def resp(rng, s, peaks, big):
    n = rng.choice([1, 2, 6, 12]) if rng.random() < 0.98 else rng.choice([130, 300, 1030])
    mu = []
    for _ in range(n):
        if peaks and rng.random() < 0.8:
            p = rng.choice(peaks)
            mu.append(p["mu0"] + rng.choice([0, 1, -1]) * rng.choice([0.3, 1, 1.5, 2.5, 6, 30, 500]) * rng.random() * p["width"] * 100)
        else:
            mu.append(rng.randrange(-10 ** 6, 10 ** 6))
    mu = [int(x) for x in mu]
    shape = (n,) if rng.random() < 0.6 or n == 1 else (2, n // 2)
    a = layout(rng, np.array(mu).reshape(shape) * 1e-6, "mu")
    before = a.copy()
    out, err = call(s.sensor_response, a)
    e = dict(ev="resp", mu=mu, out=[], raw=[], err=err or "", same=True)
    if err is None:
        if np.shape(out) != a.shape:
            e["err"] = "shape"
        else:
            e["out"], e["raw"] = quant(np.ravel(out), 1e5), quant(np.ravel(out), 1e6)
            e["same"] = bool(np.array_equal(before, a))
    return e


def run(chk):
    chk.model("SensorMC")
    cases = [history(chk, chk.rng) for _ in range(1200 if chk.quick else 8000)]
    for c in cases:
        c["desc"] = {"events": [{k: v for k, v in e.items() if k not in ("occ",)} for e in c["tla"]][:12]}
    chk.validate("SensorTrace", cases, workers=6)
