"""C19 measurements are functions of configuration, request and generators."""
import copy
import inspect
import pickle

import numpy as np

from common import MachineryError, again, call
from simcats import Simulation, default_configs
from simcats.distortions import (OccupationDotJumps, OccupationTransitionBlurringFermiDirac,
                                 OccupationTransitionBlurringGaussian, SensorPotentialPinkNoise, SensorPotentialRTN,
                                 SensorResponseRTN, SensorResponseWhiteNoise)
from simcats.ideal_csd import IdealCSDGeometric
from simcats.sensor import (SensorGeneric, SensorPeakGaussian, SensorPeakLorentzian, SensorRiseGLF,
                            SensorScanSensorGeneric)
from simcats.sensor.barrier_function import BarrierFunctionGLF
from simcats.sensor.deformation import SensorPeakDeformationCircle
from simcats.support_functions import (ExponentialSamplingRange, LogNormalSamplingRange, NormalSamplingRange,
                                       UniformSamplingRange)
import random

ATTRS = ["ideal_csd_config", "sensor", "occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions"]
LIMITS = dict(volt_limits_g1=np.array([-0.2, -0.087]), volt_limits_g2=np.array([-0.2, -0.047]),
              volt_limits_sensor_g1=np.array([-1, 0.4]), volt_limits_sensor_g2=np.array([-1, 0.4]))


# ------------------------------------------------------------------ components: the same version gives the same component
def sampler(r, lo, hi):
    g = np.random.default_rng(r.randrange(10 ** 6))
    k = r.randrange(6)
    narrow = r.choice([None, 0.4 * (hi - lo)])
    if k == 0:
        return NormalSamplingRange(total_range=(lo, hi), std=(hi - lo) / 3, sampling_range=narrow, rng=g)
    if k == 1:
        return UniformSamplingRange(total_range=(lo, hi), sampling_range=narrow, rng=g)
    if k == 2:
        return ExponentialSamplingRange(total_range=(lo, hi), scale=0.3, sampling_range=narrow, rng=g)
    if k == 3:
        return LogNormalSamplingRange(total_range=(lo, hi), sampling_range=narrow, rng=g, mean=float(np.log((lo + hi) / 2)), sigma=0.5)
    return r.uniform(lo, hi)


def gen(r):
    return np.random.default_rng(r.randrange(10 ** 6))


def peaks(r):
    out = [r.choice([SensorPeakGaussian(mu0=-0.15 + 0.003 * i, sigma=0.002, height=0.5), SensorPeakLorentzian(mu0=-0.15 + 0.003 * i, gamma=0.001, height=0.4)])
           for i in range(r.randrange(1, 30))]
    return out


def tweak(f, c, inplace):
    """Changes a component in place, always by the same amount."""
    if f == 0:
        if inplace:
            for p in c.tct_params:
                p[4] += 0.004
        else:
            c.tct_params = [np.array(p) + 0.004 * np.eye(8)[4] for p in c.tct_params]
    elif f == 1:
        if inplace:
            c.alpha_dot *= 2.0
            c.alpha_gate[..., 0] *= 1.5
        else:
            c.alpha_dot = np.array(c.alpha_dot) * 2.0
            c.alpha_gate = np.array(c.alpha_gate) * np.array([1.5, 1.0])
        for i, p in enumerate(np.ravel(c.sensor_peak_function) if c.sensor_peak_function is not None else []):
            p.height = p.height * (1.5 if i % 2 else 0.5)
    else:
        for d in c:
            if isinstance(d, OccupationDotJumps):
                d.ratio = 1 - d.ratio
            elif isinstance(d, (SensorPotentialRTN, SensorResponseRTN)):
                d.ratio = 0
            elif not hasattr(d.sigma, "sample_parameter"):
                d.sigma = d.sigma * 2
    return c


def component(f, version, base):
    """Versions 1 and 2; versions 3 and 4 are changed in place."""
    if version > 2:
        return tweak(f, component(f, version - 2, base), False)
    r = random.Random(f"{base}-{f}-{version}")
    if f == 0:
        return IdealCSDGeometric(tct_params=[np.array(p) for p in default_configs["GaAs_v1"]["ideal_csd_config"].tct_params[:r.choice([8, 14, 14])]],
                                 lut_entries=r.choice([None, 300]), cdf_type=r.choice(["sigmoid", "cauchy"]), cdf_gamma_factor=r.choice([None, 3.0]))
    if f == 1:
        if r.random() < 0.45:
            return SensorGeneric(sensor_peak_function=r.choice([peaks(r), None]), alpha_dot=np.array([-0.0005, -0.0003]), alpha_gate=np.array([0.09, 0.11]), offset_mu_sens=r.uniform(-0.2, 0))
        bars = [BarrierFunctionGLF(pinch_off_percentage=0.01, fully_conductive_percentage=0.99, asymptote_left=0, asymptote_right=0.3, growth_rate=80, asymmetry=0.5,
                                   shape_factor=2, offset=r.uniform(-0.8, -0.5)) for _ in range(2)]
        kw = {}
        if r.random() < 0.5:
            kw["final_rise"] = SensorRiseGLF(mu0=0, asymptote_left=0, asymptote_right=0.1, growth_rate=1200, asymmetry=0.3, shape_factor=2)
        if r.random() < 0.4:
            kw["sensor_peak_deformations"] = {0: SensorPeakDeformationCircle(radius=0.01)}
        return SensorScanSensorGeneric(barrier_functions=r.choice([bars[0], tuple(bars)]), sensor_peak_function=peaks(r), alpha_dot=np.array([-0.0005, -0.0003]),
                                       alpha_gate=np.array([0.09, 0.11]), alpha_sensor_gate=np.array([[0.1, 0.1], [0.9, 0.1], [0.1, 0.9]]), offset_mu_sens=np.zeros(3), **kw)
    if f == 2:
        pool = [lambda: OccupationTransitionBlurringGaussian(sampler(r, 1e-4, 1e-2)), lambda: OccupationTransitionBlurringFermiDirac(sampler(r, 1e-4, 5e-3)),
                lambda: OccupationDotJumps(scale=sampler(r, 0.003, 0.03), lam=sampler(r, 0.001, 0.006), axis=0, ratio=r.choice([0, 0.5, 1, 1]), rng=gen(r)),
                lambda: OccupationDotJumps(scale=sampler(r, 0.003, 0.03), lam=sampler(r, 0.001, 0.006), axis=1, ratio=r.choice([0, 0.5, 1, 1]), rng=gen(r))]
        # several jumps along the same axis are not combined
        if r.random() < 0.2:
            return []
        pool = r.sample(pool, r.randrange(1, 5))
        return [p() for p in pool]
    if f == 3:
        pool = [lambda: SensorPotentialPinkNoise(sigma=sampler(r, 1e-5, 1e-3), rng=gen(r)), lambda: SensorPotentialRTN(scale=sampler(r, 0.002, 0.02), std=sampler(r, 1e-4, 1e-3), height=sampler(r, 1e-4, 1e-2), ratio=r.choice([0.5, 1]), rng=gen(r))]
        return [p() for p in r.sample(pool, r.randrange(0, 3))]
    pool = [lambda: SensorResponseWhiteNoise(sigma=sampler(r, 1e-4, 1e-2), rng=gen(r)), lambda: SensorResponseRTN(scale=sampler(r, 0.002, 0.02), std=sampler(r, 1e-4, 1e-3), height=sampler(r, 1e-4, 1e-2), ratio=r.choice([0.5, 1]), rng=gen(r))]
    return [p() for p in r.sample(pool, r.randrange(0, 3))]


# ------------------------------------------------------------------ generators
def generators(x, found=None, seen=None):
    """All generators an object consists of, in a fixed order."""
    found, seen = ([], set()) if found is None else (found, seen)
    if x is None or isinstance(x, (str, int, float, np.ndarray, np.number, type)) or id(x) in seen:
        return found
    seen.add(id(x))
    if isinstance(x, np.random.Generator):
        found.append(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            generators(v, found, seen)
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            generators(x[k], found, seen)
    elif hasattr(x, "__dict__"):
        for k in sorted(vars(x)):
            generators(vars(x)[k], found, seen)
    return found


def states(sim):
    return [g.bit_generator.state for a in ATTRS for g in generators(getattr(sim, a))]


class Ids:
    """Small numbers for generator states and results."""

    def __init__(self):
        self.states, self.outs = {}, []

    def state(self, sim):
        s = repr(states(sim))
        return self.states.setdefault(s, len(self.states) + 1)

    def white(self, sim):
        s = "white " + repr([g.bit_generator.state for d in sim.sensor_response_distortions or [] if isinstance(d, SensorResponseWhiteNoise) for g in generators(d)])
        return self.states.setdefault(s, len(self.states) + 1)

    def out(self, x):
        for i, y in enumerate(self.outs):
            if len(x) == len(y) and all(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-13, equal_nan=True) for a, b in zip(x, y)):
                return i + 1
        self.outs.append(x)
        return len(self.outs)


# ------------------------------------------------------------------ requests
def requests(rng):
    """A few requests, among them refused ones. Each is (method, arguments)."""
    out = []
    for i in range(3):
        if i and rng.random() < 0.4:
            # like the one before, with one voltage changed
            req = copy.deepcopy(out[-1][1])
            w = [x for x in req.values() if isinstance(x, list)]
            if w:
                w = rng.choice(w)
                w[rng.randrange(2)] += rng.choice([1e-4, -1e-4, 2e-3])
            out.append(("measure", req))
            continue
        a, b = rng.uniform(-0.2, -0.12), rng.uniform(-0.2, -0.1)
        w1, w2 = [a, a + rng.uniform(0.005, 0.03)], [b, b + rng.uniform(0.005, 0.05)]
        if rng.random() < 0.3:
            w1.reverse()
        if rng.random() < 0.3:
            w2.reverse()
        if rng.random() < 0.4:
            res = rng.randrange(5, 30)
            if rng.random() < 0.5:
                w2 = w2[0]
            elif rng.random() < 0.5:
                w1 = w1[0]
        else:
            res = np.array([rng.randrange(4, 16), rng.randrange(4, 16)])
        out.append(("measure", dict(sweep_range_g1=w1, sweep_range_g2=w2, resolution=res)))
    for _ in range(2):
        a, b = rng.uniform(-0.9, -0.2), rng.uniform(-0.9, -0.2)
        res = rng.choice([rng.randrange(5, 30), np.array([rng.randrange(4, 12), rng.randrange(4, 12)])])
        out.append(("measure_sensor_scan", dict(sweep_range_sensor_g1=[a, a + rng.uniform(0.1, 0.4)], sweep_range_sensor_g2=[b, b + rng.uniform(0.1, 0.4)],
                                                volt_g1=rng.uniform(-0.2, -0.12), volt_g2=rng.uniform(-0.2, -0.12), resolution=res)))
    out.append(("measure", dict(sweep_range_g1=[-0.3, -0.1], sweep_range_g2=[-0.2, -0.1], resolution=7)))
    out.append(("measure", dict(sweep_range_g1=[-0.2, -0.1], sweep_range_g2=[-0.2, -0.1], resolution=np.array([1, 7]))))
    out.append(("measure_sensor_scan", dict(sweep_range_sensor_g1=[-2, 0], sweep_range_sensor_g2=[-1, 0], volt_g1=-0.15, volt_g2=-0.15, resolution=9)))
    return out


def measure(sim, req, rng):
    """Returns (arrays or None, metadata or None)."""
    kw = {k: again(rng, k, x) if isinstance(x, (list, np.ndarray)) and rng.random() < 0.7 else copy.deepcopy(x) for k, x in req[1].items()}
    out, err = call(getattr(sim, req[0]), **kw)
    if err is not None:
        return None, None
    return [np.asarray(x, dtype=float) for x in out if isinstance(x, np.ndarray)], next((x for x in out if isinstance(x, dict)), None)


def configuration(meta):
    names = inspect.signature(Simulation.__init__).parameters
    return {k: v for k, v in meta.items() if k in names}


def noisy(sim):
    """White noise of positive strength is always active."""
    return any(isinstance(d, SensorResponseWhiteNoise) for d in sim.sensor_response_distortions or [])


def glob():
    return repr(np.random.get_state())


def history(chk, rng, base, short=False):
    ids, reqs, sims, ev, saved, metas = Ids(), requests(rng), [], [], [], []
    cfgs, tw, forced, latest = [], None, None, {}

    def build(cfg):
        kw = {a: component(i, v, base) for i, (a, v) in enumerate(zip(ATTRS, cfg))}
        sims.append(Simulation(**kw, **LIMITS))
        cfgs.append(list(cfg))
        second = Simulation(**{a: component(i, v, base) for i, (a, v) in enumerate(zip(ATTRS, cfg))}, **LIMITS)
        ev.append(dict(op="build", cfg=list(cfg), gen=ids.state(sims[-1]), again=ids.state(second)))
        saved.append((len(sims) - 1, list(cfg), [copy.deepcopy(s) for s in states(sims[-1])]))

    build([1] * 5)
    for _ in range(12 if short else rng.randrange(12, 26)):
        k = 1 if forced is not None else rng.random()
        if short and k < 1:
            # one simulation, changed between measurements
            k = 0.2 if 0 in latest and k < 0.7 else 1
        m = rng.randrange(len(sims)) if forced is None else forced
        if k < 0.08 and len(sims) < 4:
            build([rng.choice([1, 1, 2]) for _ in ATTRS] if rng.random() < 0.4 else [1] * 5)
        elif k < 0.22:
            f = rng.randrange(5)
            if cfgs[m][f] <= 2 and rng.random() < (0.8 if short else 0.4):
                v = cfgs[m][f] + 2
                tweak(f, getattr(sims[m], ATTRS[f]), rng.random() < 0.5)
            else:
                v = rng.choice([1, 2, 3, 4])
                setattr(sims[m], ATTRS[f], component(f, v, base))
            cfgs[m][f] = v
            if m in latest and rng.random() < 0.7:
                forced = m
            ev.append(dict(op="set", m=m + 1, f=f + 1, version=v, gen=ids.state(sims[m]), gens=[ids.state(s) for s in sims]))
        elif k < 0.45:
            # back to (or on to) the generators of an earlier moment of the same configuration
            old = [s for s in saved if s[1] == cfgs[m]]
            if not old:
                continue
            st = rng.choice(old)[2]
            gs = [g for a in ATTRS for g in generators(getattr(sims[m], a))]
            if len(gs) != len(st):
                continue
            for g, s in zip(gs, st):
                g.bit_generator.state = copy.deepcopy(s)
            ev.append(dict(op="seed", m=m + 1, gen=ids.state(sims[m]), gens=[ids.state(s) for s in sims]))
        elif k < 0.53 and len(sims) < 5:
            how = rng.randrange(3)
            if how == 0:
                c, err = call(copy.deepcopy, sims[m])
            elif how == 1:
                c, err = call(lambda: pickle.loads(pickle.dumps(sims[m])))
            else:
                c, err = call(Simulation, **{n: getattr(sims[m], n) for n in inspect.signature(Simulation.__init__).parameters if n != "self"})
            if err is not None:
                ev.append(dict(op="copy", m=m + 1, gen=0))
                break
            sims.append(c)
            cfgs.append(list(cfgs[m]))
            ev.append(dict(op="copy", m=m + 1, gen=ids.state(c)))
        elif k < 0.58 and metas and len(sims) < 6:
            cfg, meta = rng.choice(metas)
            c, err = call(Simulation, **configuration(meta))
            if err is not None:
                raise MachineryError(f"rebuilding raised {err}")
            sims.append(c)
            cfgs.append(list(cfg))
            ev.append(dict(op="rebuild", cfg=list(cfg), gen=ids.state(c)))
        else:
            # after a change the latest request is often repeated
            r = latest[m] if m in latest and (forced is not None or rng.random() < 0.4) else rng.randrange(5 if rng.random() < 0.85 else len(reqs))
            twin = forced is not None or rng.random() < 0.3
            forced = None
            before = [copy.deepcopy(x) for x in states(sims[m])] if twin else None
            if rng.random() < 0.3:
                saved.append((m, list(cfgs[m]), [copy.deepcopy(s) for s in states(sims[m])]))
            g, w = glob(), ids.white(sims[m])
            out, meta = measure(sims[m], reqs[r], rng)
            ev.append(dict(op="measure", m=m + 1, req=r, ok=out is not None, out=0 if out is None else ids.out(out), next=ids.state(sims[m]),
                           gens=[ids.state(s) for s in sims], noisy=noisy(sims[m]), white=w, **{"global": glob() == g}))
            if out is not None:
                latest[m] = r
            if meta is not None:
                metas.append((list(cfgs[m]), meta))
            chk.count("measurements")
            if twin:
                # the same measurement by a simulation without history
                kw = {a: component(i, v, base) for i, (a, v) in enumerate(zip(ATTRS, cfgs[m]))}
                c = Simulation(**kw, **LIMITS)
                gs = [g for a in ATTRS for g in generators(getattr(c, a))]
                if len(gs) != len(before):
                    continue
                for x, st in zip(gs, before):
                    x.bit_generator.state = st
                if tw is None:
                    tw = len(sims)
                    sims.append(c)
                    cfgs.append(list(cfgs[m]))
                    ev.append(dict(op="build", cfg=list(cfgs[m]), gen=ids.state(c), again=ids.state(c)))
                else:
                    sims[tw], cfgs[tw] = c, list(cfgs[m])
                    ev.append(dict(op="renew", m=tw + 1, cfg=list(cfgs[m]), gen=ids.state(c)))
                w = ids.white(c)
                out, _ = measure(c, reqs[r], rng)
                ev.append(dict(op="measure", m=tw + 1, req=r, ok=out is not None, out=0 if out is None else ids.out(out), next=ids.state(c),
                               gens=[ids.state(s) for s in sims], noisy=noisy(c), white=w, **{"global": True}))
                chk.count("measurements repeated without history")
    return {"tla": [dict(cfg=[], gen=[], seen=[])] + ev}


# ------------------------------------------------------------------ components without own generator
def fresh(rng):
    data = np.zeros((40, 9))
    lim = [np.array([-0.1, -0.05]), np.array([-0.2, -0.1])]
    ids = Ids()
    g = glob()
    k = rng.randrange(9)
    outs = []
    for _ in range(3):
        c = [lambda: SensorResponseWhiteNoise(sigma=0.1), lambda: SensorPotentialPinkNoise(sigma=0.1), lambda: SensorPotentialRTN(scale=0.01, std=0.1, height=0.5),
             lambda: SensorResponseRTN(scale=0.01, std=0.1, height=0.5), lambda: OccupationDotJumps(scale=0.01, lam=0.02, axis=rng.choice([0, 1])),
             lambda: NormalSamplingRange((0, 1), std=0.3, sampling_range=0.5), lambda: UniformSamplingRange((0, 1), sampling_range=0.5),
             lambda: ExponentialSamplingRange((0, 1), scale=0.3, sampling_range=0.5), lambda: LogNormalSamplingRange((0.5, 3))][k]()
        if k < 4:
            sim = Simulation()
            a = "sensor_response_distortions" if k in (0, 3) else "sensor_potential_distortions"
            setattr(sim, a, [c])
            outs.append(ids.out([getattr(sim, a)[0].noise_function(data, *lim)]))
        elif k == 4:
            sim = Simulation()
            sim.occupation_distortions = [c]
            occ = np.arange(40 * 40 * 2, dtype=float).reshape(40, 40, 2)
            out = sim.occupation_distortions[0].noise_function(occ, np.zeros((40, 40)), *lim, None)
            outs.append(ids.out([np.asarray(out[0])]))
        else:
            outs.append(ids.out([np.array([copy.deepcopy(c).sample_parameter() for _ in range(1)])]))
    return {"tla": [dict(cfg=[], gen=[], seen=[]), dict(op="fresh", outs=outs, **{"global": glob() == g})], "desc": ["fresh", k, outs]}


def run(chk):
    chk.model("DeterminismMC", cfg="DeterminismMC" if chk.quick else "DeterminismMCdeep")
    for cfg in ("leak", "shared", "early"):
        r = chk.tlc("DeterminismMC", cfg="DeterminismMC" + cfg, expect_ok=False, count=False)
        if "Invariant Refines is violated" not in r.out:
            raise MachineryError(f"the model {cfg} should be refuted")
    rng = chk.rng
    n = 45 if chk.quick else 1500
    cases = [history(chk, rng, f"{chk.seed}-{i}") for i in range(n)] + [history(chk, rng, f"{chk.seed}-{i}", True) for i in range(n)] + [fresh(rng) for _ in range(n)]
    chk.validate("DeterminismTrace", cases, workers=6)
