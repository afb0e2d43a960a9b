"""C24 noise-free measurements are functions of the voltages."""
import copy
import warnings

import numpy as np

from common import call, layout, quant, MachineryError
from simcats import Simulation, default_configs
from simcats.config_samplers import sample_random_variations_v3_config
from simcats.distortions import OccupationTransitionBlurringGaussian, SensorPotentialPinkNoise, SensorResponseWhiteNoise

NOISE = ["occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions"]
LIMITS = ["volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2"]
REACH = 44   # coarse grid points on both sides of the origin


def configuration(rng):
    k = rng.randrange(6)
    if k < 2:
        return "GaAs_v1", copy.deepcopy(default_configs["GaAs_v1"])
    if k < 4:
        return "GaAs_v2_extended_sensor", copy.deepcopy(default_configs["GaAs_v2_extended_sensor"])
    t = ["SensorGeneric", "SensorScanSensorGeneric"][k - 4]
    np.random.seed(rng.randrange(2 ** 31))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return "sampled " + t, sample_random_variations_v3_config(sensor_type=t)


def near_labels(labels):
    """Pixels that are labelled or touch one that is."""
    m = np.asarray(labels) != 0
    m = m.reshape(1, -1) if m.ndim == 1 else m
    p = np.pad(m, 1)
    out = np.zeros_like(m)
    for i in range(3):
        for j in range(3):
            out |= p[i:i + m.shape[0], j:j + m.shape[1]]
    return np.ravel(out)


class Lab:
    """A configuration without noise, the grids of its voltages, and the simulations that measure it."""

    def __init__(self, rng):
        self.rng = rng
        self.name, cfg = configuration(rng)
        for n in NOISE:
            cfg[n] = None
        self.cfg = cfg
        self.sims = [Simulation(**cfg)]
        self.extended = cfg.get("volt_limits_sensor_g1") is not None and "Scan" in type(cfg["sensor"]).__name__
        self.grid = []
        fine = rng.choice([.6, .6, 2.5])   # also grids with points that are very close to each other
        self.f = rng.choice([1, 1, 5, 20, 50])   # grid points per coarse grid point
        for i, n in enumerate(LIMITS):
            lo, hi = cfg.get(n) if cfg.get(n) is not None else (-1.0, 1.0)
            step = 7e-4 * 10 ** -rng.uniform(0, fine) if i < 2 else 1.3e-2 * 10 ** -rng.uniform(0, fine)
            step = min(step, (hi - lo) / (2 * REACH) * .99)
            base = rng.uniform(lo + REACH * step, hi - REACH * step)
            if i >= 2 and n in cfg and rng.random() < .8:
                base = float(np.clip(rng.uniform(-.65, -.1), lo + REACH * step, hi - REACH * step))
            if base + REACH * step > hi or base - REACH * step < lo:
                raise MachineryError("grid outside of the limits")
            self.grid.append((base, step / self.f))

    def volt(self, gate, k):
        b, s = self.grid[gate]
        return b + s * k

    def sim(self):
        """Any simulation of this configuration is as good as any other."""
        rng = self.rng
        k = rng.random()
        if k < .1 or len(self.sims) == 0:
            self.sims.append(Simulation(**self.cfg))
        elif k < .2:
            self.sims.append(copy.deepcopy(rng.choice(self.sims)))
        return rng.choice(self.sims)


def scan(rng, f):
    """First points, steps and numbers of pixels."""
    def axis(n):
        m = rng.choice([1, 1, 1, 2, 2, 3]) * rng.choice([1, 1, -1])
        while abs(m) * (n - 1) > 2 * REACH:
            m = m // abs(m) * (abs(m) - 1)
        m *= f
        span = m * (n - 1)
        a = -REACH * f + rng.randrange(2 * REACH * f - abs(span) + 1)
        return (a if m > 0 else a - span), m
    if rng.random() < .62:
        cols, rows = rng.randrange(12, 25), rng.randrange(12, 25)
        a1, m1 = axis(cols)
        a2, m2 = axis(rows)
    else:
        rows, cols = 0, rng.randrange(2, 45)
        a1, m1 = axis(cols)
        a2, m2 = axis(cols)
        k = rng.randrange(4)
        if k == 0:
            m1, a1 = 0, rng.randrange(-REACH * f, REACH * f + 1)
        elif k == 1:
            m2, a2 = 0, rng.randrange(-REACH * f, REACH * f + 1)
    return dict(rows=rows, cols=cols, a1=a1, m1=m1, a2=a2, m2=m2)


def ends(s, ax):
    a, m = s[f"a{ax}"], s[f"m{ax}"]
    n = s["cols"] if ax == 1 or s["rows"] == 0 else s["rows"]
    return a, a + m * (n - 1)


def fits(s, f):
    return all(-REACH * f <= x <= REACH * f for ax in (1, 2) for x in ends(s, ax)) and (s["rows"] == 0 or (s["m1"] and s["m2"]))


def change(rng, s, f):
    """The same scan with one thing changed."""
    for _ in range(20):
        t = dict(s)
        k = rng.randrange(8)
        if k == 0:
            t["a1"], t["m1"] = ends(s, 1)[1], -s["m1"]
        elif k == 1:
            t["a2"], t["m2"] = ends(s, 2)[1], -s["m2"]
        elif k == 2:
            t[rng.choice(["a1", "a2"])] += rng.choice([-2, -1, 1, 2, 5]) * rng.choice([1, f])
        elif k == 3 and s["rows"]:
            t["rows"], t["cols"] = s["cols"], s["rows"]
        elif k == 4:
            t["a1"], t["a2"], t["m1"], t["m2"] = s["a2"], s["a1"], s["m2"], s["m1"]
            if s["rows"]:
                t["rows"], t["cols"] = s["cols"], s["rows"]
        elif k == 5:
            t["cols"] = max(12 if s["rows"] else 2, s["cols"] + rng.choice([-4, -1, 1, 4]))
        elif k == 6 and s["rows"]:
            t["rows"] = max(12, s["rows"] + rng.choice([-4, -1, 1, 4]))
        elif k == 7 and s["rows"]:
            # one line of it
            if rng.random() < .5:
                t.update(rows=0, a2=s["a2"] + s["m2"] * rng.randrange(s["rows"]), m2=0)
            else:
                t.update(rows=0, cols=s["rows"], a1=s["a1"] + s["m1"] * rng.randrange(s["cols"]), m1=0)
        if fits(t, f) and t != s:
            return t
    return s


def point_of(rng, s):
    """A grid point of a scan."""
    if s["rows"]:
        return s["a1"] + s["m1"] * rng.randrange(s["cols"]), s["a2"] + s["m2"] * rng.randrange(s["rows"])
    k = rng.randrange(s["cols"])
    return s["a1"] + s["m1"] * k, s["a2"] + s["m2"] * k


def disturb(rng, sim):
    """Noise that is measured once and removed again."""
    pool = [(0, [OccupationTransitionBlurringGaussian(rng.uniform(1e-4, 3e-3))]), (1, [SensorPotentialPinkNoise(rng.uniform(1e-4, 1e-2))]), (2, [SensorResponseWhiteNoise(rng.uniform(.01, 1))])]
    for i, d in pool:
        if rng.random() < .6:
            setattr(sim, NOISE[i], d)


def history(rng):
    lab = Lab(rng)
    events, log = [], []
    r = REACH * lab.f
    s = {1: scan(rng, lab.f), 2: scan(rng, lab.f)}
    fixed = {k: (rng.randrange(-r, r + 1), rng.randrange(-r, r + 1)) for k in (1, 2)}
    kind = 1
    for i in range(rng.randrange(4, 8)):
        if lab.extended and rng.random() < .45:
            kind = 3 - kind
            if rng.random() < .6:
                # through a point of the last scan of the other gates, whose fixed voltages this one passes
                fixed[kind] = point_of(rng, s[3 - kind])
                if rng.random() < .7:
                    x, y = fixed[3 - kind]
                    t = scan(rng, lab.f)
                    p = point_of(rng, t)
                    t["a1"] += x - p[0]
                    t["a2"] += y - p[1]
                    if fits(t, lab.f):
                        s[kind] = t
        elif i:
            k = rng.random()
            if k < .7:
                s[kind] = change(rng, s[kind], lab.f)
            elif k < .9:
                s[kind] = scan(rng, lab.f)
            elif lab.extended:
                fixed[kind] = (fixed[kind][0] + rng.choice([-1, 0, 1, 7]), fixed[kind][1]) if rng.random() < .5 else fixed[kind][::-1]
                if max(map(abs, fixed[kind])) > r:
                    fixed[kind] = (0, 0)
        c = s[kind]
        f = fixed[kind] if lab.extended else (0, 0)
        g = 0 if kind == 1 else 2
        v = [np.array([lab.volt(g + ax - 1, x) for x in ends(c, ax)]) for ax in (1, 2)]
        w = [lab.volt((2 - g) + ax, f[ax]) for ax in (0, 1)]
        res = np.array([c["cols"], c["rows"]] if c["rows"] else [c["cols"]])
        sim = lab.sim()
        noisy = rng.random() < .25

        def measure():
            vv = [layout(rng, x, slot=f"c24{j}") for j, x in enumerate(v)]
            n = layout(rng, res) if rng.random() < .7 or c["rows"] else int(res[0])
            if kind == 2:
                return sim.measure_sensor_scan(*vv, *w, resolution=n)
            if lab.extended:
                return sim.measure(*vv, *w, resolution=n)
            return sim.measure(*vv, resolution=n)

        if noisy:
            disturb(rng, sim)
            call(measure)
            for n in NOISE:
                setattr(sim, n, None)
        out, err = call(measure)
        e = dict(kind=kind, f1=f[0], f2=f[1], err=err or "", val=[], soft=[], tol=[3, 2, 2] if kind == 1 else [3, 0], **c)
        if out is not None:
            n = max(c["rows"], 1) * c["cols"]
            val = [np.ravel(out[0])] + ([np.ravel(np.asarray(out[1])[..., 0]), np.ravel(np.asarray(out[1])[..., 1])] if kind == 1 else [np.ravel(out[1]) * 1e-5])
            if all(len(x) == n for x in val):
                e["val"] = quant(np.stack(val, axis=-1), 1e5)
                e["soft"] = near_labels(out[2]).tolist() if kind == 1 else [False] * n
        events.append(e)
        log.append(dict(kind=kind, fixed=list(f), noisy=noisy, **c))
    return dict(tla=events, desc=dict(configuration=lab.name, grid=lab.grid, history=log))


def run(chk):
    chk.model("FieldMC", workers=4)
    chk.model("FieldMC", "FieldMCcross", workers=4)
    if not chk.quick:
        chk.model("FieldMC", "FieldMCdeep", workers=6, timeout=1500)
    for bad in ("FieldMCstale", "FieldMCsorted", "FieldMCturned", "FieldMCcrossswapped"):
        r = chk.tlc("FieldMC", bad, workers=2, expect_ok=False, count=False)
        if "is violated" not in r.out:
            raise MachineryError(f"{bad} should break the law\n" + r.out[-2000:])
    cases = [history(chk.rng) for _ in range(120 if chk.quick else 1500)]
    chk.count("scans", sum(len(c["tla"]) for c in cases))
    chk.validate("FieldTrace", cases, workers=6, timeout=1500, mem="6g")
    chk.assumptions += ["pixels of at most 2.1 mV, at least 12 pixels per axis in 2D", "pixels that are labelled or touch a labelled pixel are not compared", "values are compared within 3e-5"]
