"""C20 sampled configurations."""
import math
import multiprocessing as mp
import pickle
import random
import hashlib

import numpy as np

from common import call, quant, MachineryError
import simcats
from simcats import Simulation, default_configs
from simcats.config_samplers import sample_random_variations_v3_config

QS = [1000, 1000, 500, 100, 10]
REFUSED = [dict(quality_multiplier=0.0), dict(quality_multiplier=-0.5), dict(quality_multiplier=1.0001), dict(quality_multiplier=7),
           dict(quality_multiplier=float("nan")), dict(sensor_type="Sensor"), dict(sensor_type=None), dict(sensor_type="sensorgeneric")]
DEFAULT_RNG = np.random.default_rng


def seeded(seed):
    """np.random.default_rng() gives seeded, different generators: the sampled configurations are reproducible."""
    seq = np.random.SeedSequence(seed)

    def default_rng(s=None):
        return DEFAULT_RNG(seq.spawn(1)[0] if s is None else s)
    return default_rng


def amount(x):
    """A parameter that is given as number or as sampler: some of its values."""
    return [x.sample_parameter() for _ in range(12)] if hasattr(x, "sample_parameter") else [x]


def one(x):
    v = amount(x)
    return v[0] if min(v) == max(v) else float("nan")


def measured(sim, kind, rng):
    """Outcomes of measurements within the limits of the configuration."""
    res = []
    for i in range(4):
        kw = {}
        if kind == "SensorScanSensorGeneric":
            kw = dict(volt_sensor_g1=rng.uniform(-1, 0), volt_sensor_g2=rng.uniform(-1, 0))
        w = sorted(rng.uniform(-.2, -.06) for _ in range(2)), sorted(rng.uniform(-.2, -.06) for _ in range(2))
        if i == 0:
            w = [-.2, -.06], [-.2, -.06]
        if rng.random() < .3:
            w[0].reverse()
        if rng.random() < .3:
            w[1].reverse()
        a, b = (np.array(v) for v in w)
        k = rng.randrange(4) if i else 3
        if k == 0:
            a = np.array([a[0], a[0]])
        elif k == 1:
            b = np.array([b[1], b[1]])
        n = np.array([rng.randrange(10, 60), rng.randrange(10, 60)])
        if k < 3:
            n = n[:1] * 5
        r, e = call(sim.measure, a, b, resolution=n, **kw)
        if r is None:
            res.append(e)
        else:
            res.append("finite" if all(np.isfinite(np.asarray(x, dtype=float)).all() for x in r if not isinstance(x, dict)) else "not finite")
    if kind == "SensorScanSensorGeneric":
        r, e = call(sim.measure_sensor_scan, np.array([-1., 0.]), np.array([-1., 0.]), resolution=np.array([12, 15]),
                    volt_g1=-.1, volt_g2=-.15)
        res.append(e if r is None else "finite" if np.isfinite(np.asarray(r[0], dtype=float)).all() else "not finite")
    return res


def observe(cfg, kind, q, comp, steep, rng):
    """The configuration as a record of integers."""
    c = dict(what="config", kind=kind, q=q, comp=comp, steep=steep)
    lim = []
    for k in ("volt_limits_g1", "volt_limits_g2", "volt_limits_sensor_g1", "volt_limits_sensor_g2"):
        lim += list(np.asarray(cfg[k], dtype=float).ravel())
    c["limits"] = quant(lim, 1e8)
    csd = cfg["ideal_csd_config"]
    tct = np.array(csd.tct_params, dtype=float)
    c["tct"] = quant(tct, 1e8)
    c["lut"] = int(csd.lut_entries)
    s = cfg["sensor"]
    ag, ad = np.asarray(s.alpha_gate, dtype=float), np.asarray(s.alpha_dot, dtype=float)
    if kind == "SensorScanSensorGeneric":
        c["samerows"] = bool(ag.shape == ad.shape == (3, 2) and (ag == ag[0]).all() and (ad == ad[0]).all())
    ag, ad = ag.reshape(-1, 2)[0], ad.reshape(-1, 2)[0]
    c["ag"], c["ad"] = quant(ag, 1e8), quant(ad, 1e9)
    P = s.sensor_peak_function
    P = P if isinstance(P, list) else [P]
    c["peaks"] = [dict(mu=quant(p.mu0, 1e8), gamma=quant(p.gamma, 1e8), h=quant(p.height, 1e7), off=quant(p.offset, 1e7)) for p in P]
    c["offset"] = quant(np.max(np.atleast_1d(s.offset_mu_sens)), 1e8)
    if kind == "SensorGeneric":
        a, b = float(ag @ [-.2, -.2]), float(ag @ [-.06, -.06] + 5 * ad.sum())
        lo, hi = min(a, b), max(a, b)
        c["slope"], c["slopes"] = 0, []
        if steep:
            # slopes of the response, from the response itself
            x = np.linspace(lo - .2 * (hi - lo), hi + .2 * (hi - lo), 30001)
            h = min(p.gamma for p in P) * 2e-3
            g = np.asarray(s.sensor_response(x + h)) - np.asarray(s.sensor_response(x - h))
            o = np.array([float(s.offset_mu_sens)])
            at = float((np.asarray(s.sensor_response(o + h)) - np.asarray(s.sensor_response(o - h)))[0])
            m = np.abs(g).max()
            c["slope"] = quant(at / m, 1e6)
            c["slopes"] = quant([v.max() / m for v in np.array_split(g, 40)], 1e6)
    else:
        m = np.array([p.mu0 for p in P])
        d = np.diff(m)
        c["rel"] = quant(d / d[0], 1e6)
        g = np.array([p.gamma for p in P])
        c["relgamma"] = [0] + quant(g[1:] / g[:-1], 1e6)
        A = np.asarray(s.alpha_sensor_gate, dtype=float)
        c["lever"] = quant(A, 1e8)
        B = s.barrier_functions
        point = np.linalg.solve(A[1:], [float(b.pinch_off) for b in B])
        c["pinch"] = quant(point, 1e8)
        c["lead"] = quant(m[0] - A[0] @ point, 1e8)
        c["ndeform"] = len(s.sensor_peak_deformations or {})
        x = np.unique(np.concatenate([m, np.linspace(m[0] - 20 * g[0], m[-1] + 20 * g[-1], 20001)]))
        top = sum(np.asarray(p.sensor_function(x)) for p in P).max()
        r = s.final_rise
        c["rise"] = dict(left=quant(r.asymptote_left, 1e7), right=quant(r.asymptote_right / top, 1e6), growth=quant(r.growth_rate, 1e6),
                         asym=quant(r.asymmetry, 1e6), shape=quant(r.shape_factor, 1e6), mu=quant(r.mu0, 1e8),
                         pct=quant(r.fully_conductive_percentage, 1e6))
        c["barriers"] = [dict(left=quant(b.asymptote_left, 1e7), right=quant(b.asymptote_right, 1e7), growth=quant(b.growth_rate, 1e6),
                              asym=quant(b.asymmetry, 1e9), shape=quant(b.shape_factor, 1e6),
                              pinchpct=quant(b.pinch_off_percentage, 1e6), fullpct=quant(b.fully_conductive_percentage, 1e6)) for b in B]
    # distortions, in the order occupation, potential, response
    D = []
    for k in ("occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions"):
        for d in cfg[k]:
            e = dict(name=type(d).__name__)
            if hasattr(d, "sigma"):
                e["sigma"] = quant(amount(d.sigma), 1e9)
            else:
                ax = getattr(d, "axis", -1)
                u = {"scale": 1e8, "lam": 1e8, "std": 1e8, "height": 1e8, "ratio": 1e6}
                for f in u:
                    if hasattr(d, f):
                        e[f] = quant(one(getattr(d, f)), u[f])
                if "RTN" in e["name"]:
                    # the response is not a voltage: 1e8 of it fits all the same
                    pass
                e["axis"] = int(ax)
            D.append(e)
    c["dist"] = D
    return c


def objects(x, seen=None, depth=0):
    """ids of all mutable objects of the package and all generators reachable from x."""
    seen = {} if seen is None else seen
    if depth > 8:
        return seen
    if isinstance(x, dict):
        for v in x.values():
            objects(v, seen, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            objects(v, seen, depth + 1)
    elif isinstance(x, np.random.Generator):
        seen[id(x)] = x
    elif isinstance(x, np.ndarray):
        if x.size and x.flags.writeable:
            b = x
            while isinstance(b.base, np.ndarray):
                b = b.base
            seen[id(b)] = b
    elif type(x).__module__.startswith("simcats"):
        if id(x) not in seen:
            seen[id(x)] = x
            objects(list(vars(x).values()) if hasattr(x, "__dict__") else [], seen, depth + 1)
    return seen


def digest(x):
    """Content of the default configurations."""
    def plain(v, d=0):
        if isinstance(v, dict):
            return [(repr(k), plain(w, d + 1)) for k, w in v.items()]
        if isinstance(v, (list, tuple)):
            return [plain(w, d + 1) for w in v]
        if isinstance(v, np.ndarray):
            return v.tolist()
        if isinstance(v, np.random.Generator):
            return repr(v.bit_generator.state)
        if type(v).__module__.startswith("simcats") and hasattr(v, "__dict__") and d < 9:
            return [type(v).__name__, plain(vars(v), d + 1)]
        return repr(v) if not callable(v) else "f"
    return int(hashlib.sha256(repr(plain(x)).encode()).hexdigest()[:7], 16)


def thirds(x, lo, hi):
    k = min(2, max(0, int(3 * (x - lo) / (hi - lo)))) if np.isfinite(x) else 0
    return k


def variety(cfg, kind, comp):
    """The third of its range in which each freely drawn parameter lies."""
    p = np.array(cfg["ideal_csd_config"].tct_params[0])
    res = {"length 1": thirds(p[0], .01, .025), "length 2": thirds(p[1], .01, .025)}
    ag = np.asarray(cfg["sensor"].alpha_gate).reshape(-1, 2)[0]
    g1 = (.0001, .0005) if comp else (.02805, .15093)
    res[f"lever arm {comp}"] = thirds(ag[0], *g1)
    res["lever arm ratio"] = thirds(ag[1] / ag[0], .5, 2)
    P = cfg["sensor"].sensor_peak_function
    if kind == "SensorGeneric":
        for i in range(3):
            res[f"gamma {i}"] = thirds(P[i].gamma, .0009636, .0029509)
        res["offset"] = thirds(P[0].offset, -.42275, -.0838)
        res["offset ratio"] = thirds(P[1].offset / P[0].offset, .8, 1.2)
        res["height ratio"] = thirds(P[1].height / P[0].height, .8, 1.2)
    else:
        A = cfg["sensor"].alpha_sensor_gate
        res["barrier 1"] = thirds(A[1][1], .1, .3)
        res["barrier 2"] = thirds(A[2][0], .1, .3)
        res["number"] = thirds(len(P), 20, 30)
        for b in cfg["sensor"].barrier_functions:
            res["growth"] = thirds(b.growth_rate, 20, 40)
        res["rise growth"] = thirds(cfg["sensor"].final_rise.growth_rate, 400, 600)
    return res


def sample(kind, q, comp, steep, rng):
    kw = dict(sensor_type=kind, quality_multiplier=q / 1000, compensated_sensor=comp, set_sensor_potential_offset_to_steepest_point=steep)
    names = list(kw)
    if rng.random() < .3:   # by position
        return sample_random_variations_v3_config(*kw.values())
    defaults = dict(sensor_type="SensorGeneric", quality_multiplier=1.0, compensated_sensor=False, set_sensor_potential_offset_to_steepest_point=False)
    for n in names:
        if kw[n] == defaults[n] and rng.random() < .7:
            del kw[n]
    return sample_random_variations_v3_config(**kw)


def batch(job):
    """Samples some configurations in a worker process."""
    seed, n, _ = job
    rng = random.Random(seed)
    np.random.default_rng = seeded(seed)
    random.seed(seed)
    np.random.seed(seed % 2 ** 32)
    before = digest(default_configs)
    cases, vs, keep, keys, means, bad = [], [], [], [], {}, []
    for i in range(n):
        kind = rng.choice(["SensorGeneric", "SensorGeneric", "SensorScanSensorGeneric"])
        q, comp, steep = rng.choice(QS), rng.random() < .4, rng.random() < .3
        try:
            cfg = sample(kind, q, comp, steep, rng)
        except Exception as e:  # the sampler itself fails
            bad.append(f"{type(e).__name__}: {e} for {kind} q={q / 1000} compensated={comp} steepest={steep}")
            continue
        vs.append((kind, comp, variety(cfg, kind, comp)))
        try:
            tla = observe(cfg, kind, q, comp, steep, rng)
        except (AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
            bad.append(f"unusable configuration ({type(e).__name__}: {e}) for {kind}")
            continue
        if i < 6:
            keep.append((cfg, objects(cfg)))
        for d in cfg["sensor_potential_distortions"] + cfg["sensor_response_distortions"]:
            if type(d).__name__ in ("SensorPotentialPinkNoise", "SensorResponseWhiteNoise"):
                n_draws = 40
                draws = [float(d.sigma.sample_parameter()) for _ in range(n_draws)] if hasattr(d.sigma, "sample_parameter") else [float(d.sigma)] * n_draws
                means.setdefault((type(d).__name__, q), []).extend(v / 5e-4 for v in draws)
        tla["measured"] = measured(Simulation(**cfg), kind, rng)
        keys.append(int(hashlib.sha256(repr((tla["tct"][0], tla["ag"], tla["peaks"])).encode()).hexdigest()[:7], 16))
        cases.append(dict(tla=tla, desc=dict(sensor=kind, quality=q / 1000, compensated=comp, steepest=steep, transitions=len(tla["tct"]),
                                              peaks=len(tla["peaks"]), first_tct=tla["tct"][0], measured=tla["measured"])))
    # shared objects
    number, objs = {}, []
    for cfg, o in keep + [(None, objects(default_configs))]:
        objs.append([number.setdefault(k, len(number)) for k in o])
    refused = []
    for kw in REFUSED:
        r, e = call(sample_random_variations_v3_config, **kw)
        refused.append(e or "accepted")
    return cases, vs, objs, keys, means, refused, [before, digest(default_configs)], bad


def run(chk):
    chk.model("ConfigMC", "ConfigMC" if chk.quick else "ConfigMCdeep", workers=4, timeout=1500)
    r = chk.tlc("ConfigMC", "ConfigMCfirst", workers=2, expect_ok=False, count=False)
    if "Invariant NotStuck is violated" not in r.out:
        raise MachineryError("the larger peak distance should not always leave a place\n" + r.out[-2000:])
    nb, n = (8, 26) if chk.quick else (64, 40)
    jobs = [(chk.npseed("batch", i), n, i) for i in range(nb)]
    with mp.get_context("fork").Pool(8) as pool:
        results = pool.map(batch, jobs, chunksize=1)
    cases, allthirds, means, seen = [], {}, {}, []
    for job, (cs, vs, objs, keys, ms, refused, defaults, bad) in zip(jobs, results):
        for b in bad:
            chk.violation("sampling", dict(what=b, seed=job[0]))
        cases += cs
        for kind, comp, v in vs:
            for name, k in v.items():
                allthirds.setdefault((kind, name), [0, 0, 0])[k] += 1
        for k, v in ms.items():
            means.setdefault(k, []).extend(v)
        cases.append(dict(tla=dict(what="many", means=[], thirds=[], objects=objs, defaults=defaults, keys=keys, refused=refused),
                          desc=dict(many="laws of one batch", refused=refused, configurations=len(cs))))
    many = dict(what="many", objects=[], defaults=[0, 0], keys=[], refused=[])
    many["means"] = [dict(name=k[0], q=k[1], mean=quant(np.mean(v), 1e6), root=int(math.sqrt(len(v)))) for k, v in sorted(means.items())]
    # a third stays empty with probability (2/3)^n: below 1e-9 for n >= 51
    many["thirds"] = [dict(name=f"{k[0]} {k[1]}", n=v) for k, v in sorted(allthirds.items()) if sum(v) >= 52]
    cases.append(dict(tla=many, desc=dict(many="laws of all batches", means=many["means"], thirds=many["thirds"])))
    chk.extra["thirds"] = {x["name"]: x["n"] for x in many["thirds"]}
    chk.extra["means"] = many["means"]
    chk.extra["configurations"] = sum(c["tla"]["what"] == "config" for c in cases)
    chk.validate("ConfigTrace", cases, workers=6)
    chk.assumptions += ["scans of the full window are measured with at least 10 x 10 pixels",
                        "the strengths of noises are compared with their documented distribution within seven standard deviations"]
