"""C22 retuning of sensors (reset_offset_mu_sens)."""
import copy

import numpy as np

from common import call, layout, quant, MachineryError
from simcats import Simulation, default_configs
from simcats.sensor import SensorGeneric, SensorPeakGaussian, SensorPeakLorentzian
from simcats.support_functions import reset_offset_mu_sens
from stubs import StubCSD, Recorder
import simcats.ideal_csd


class LinearCSD(simcats.ideal_csd.IdealCSDInterface):
    """Occupations that follow the voltages: a sweep with other points or another direction has others at its first pixel."""

    def __init__(self, a):
        self.a = a

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=np.array([100, 100])):
        r = np.ravel(resolution)
        shp = (int(r[0]),) if len(r) == 1 else (int(r[1]), int(r[0]))
        v1 = np.linspace(volt_limits_g1[0], volt_limits_g1[1], shp[-1])
        v2 = np.linspace(volt_limits_g2[0], volt_limits_g2[1], shp[0])
        if len(shp) == 2:
            v1, v2 = np.meshgrid(v1, v2)
        occ = np.stack((2 + self.a[0] * v1 + self.a[1] * v2, 1 + self.a[2] * v1 + self.a[3] * v2), axis=-1)
        return occ, np.zeros(shp)


def snapshot(sim):
    s = sim.sensor
    P = s.sensor_peak_function
    P = P if isinstance(P, list) else [P]
    c = sim.ideal_csd_config
    return repr([np.asarray(s.alpha_dot).tolist(), np.asarray(s.alpha_gate).tolist(), [[getattr(p, k, None) for k in ("mu0", "gamma", "sigma", "height", "offset")] for p in P],
                 [np.asarray(getattr(c, k, 0)).tolist() for k in ("tct_params", "rotation", "lut_entries", "cdf_gamma_factor", "a")], np.asarray(sim.volt_limits_g1).tolist(), np.asarray(sim.volt_limits_g2).tolist(),
                 len(sim.occupation_distortions or []), len(sim.sensor_potential_distortions or []), len(sim.sensor_response_distortions or [])])


def history(rng):
    ag = [rng.randrange(-300, 1500), rng.randrange(-300, 1500)]
    ad = [-rng.randrange(0, 800), -rng.randrange(0, 800)]
    o = rng.choice([0, rng.randrange(-500, 500) * 100000])
    peaks = []
    for _ in range(rng.randrange(1, 4)):
        mu = rng.uniform(-.05, .05)
        peaks.append(SensorPeakLorentzian(mu0=mu, gamma=rng.uniform(.002, .03), height=rng.uniform(.1, 1), offset=rng.uniform(-.3, .3))
                     if rng.random() < .6 else SensorPeakGaussian(mu0=mu, sigma=rng.uniform(.004, .03), height=rng.uniform(.1, 1), offset=.05))
    sensor = SensorGeneric(sensor_peak_function=peaks if len(peaks) > 1 or rng.random() < .5 else peaks[0], alpha_dot=np.array(ad) * 1e-6,
                           alpha_gate=np.array(ag) * 1e-4, offset_mu_sens=o * 1e-10)
    csd = copy.deepcopy(default_configs["GaAs_v1"]["ideal_csd_config"]) if rng.random() < .5 else \
        LinearCSD([rng.randrange(-20, 21) for _ in range(4)])
    cfg = dict(volt_limits_g1=np.array([-.2, -.06]), volt_limits_g2=np.array([-.2, -.06]), ideal_csd_config=csd, sensor=sensor)
    sim = Simulation(**cfg)
    sim2 = Simulation(**cfg) if rng.random() < .3 else None   # another simulation is not concerned
    events, log = [], []
    tuned = None

    def sweep():
        k = rng.randrange(4)
        v = [[rng.randrange(-20000, -9000) * 10 for _ in range(2)] for _ in range(2)]
        if k == 0:
            v[0][1] = v[0][0]
        elif k == 1:
            v[1][1] = v[1][0]
        return v

    def volts(v):
        return [layout(rng, np.array(x) * 1e-6) for x in v]

    def first(v):
        """Electrons at the first pixel."""
        occ, _ = sim.ideal_csd_config.get_csd_data(*[np.array(x) * 1e-6 for x in v], resolution=np.array([7]))
        return quant(occ[0], 1e5)

    w, last = sweep(), 0
    for _ in range(rng.randrange(2, 7)):
        k = rng.random()
        before, b2 = snapshot(sim), None if sim2 is None else (repr(sim2.sensor.offset_mu_sens), snapshot(sim2))
        e = dict(v=[0, 0], n=[0, 0], err="", pot=0, resp=0, respat=0, fresh=False, target=0, to=0)
        if k < .2:
            x = rng.randrange(-500, 500) * 100000
            e.update(ev="set", to=x)
            _, err = call(setattr, sim.sensor, "offset_mu_sens", x * 1e-10)
            tuned = None
            log.append(f"offset_mu_sens = {x * 1e-10}")
        elif k < .65:
            k2 = rng.random()
            if k2 < .5:
                w = sweep()
            x = rng.choice([0, rng.randrange(-500, 500)]) * 100000
            if k2 > .7:
                # nearly what it has been tuned to before
                x = last + rng.choice([1, -1]) * rng.choice([0, 2000, 20000, 200000])
                w = [[y + d for y in v] for v in w for d in [rng.choice([0, 0, 10, -10, 300])]]
            last = x
            a, b = volts(w)
            ca, cb = a.copy(), b.copy()
            kw = rng.random() < .5
            if kw:
                _, err = call(reset_offset_mu_sens, sim, x * 1e-10, sweep_range_g1=a, sweep_range_g2=b)
            else:
                _, err = call(reset_offset_mu_sens, sim, x * 1e-10, a, b)
            e.update(ev="retune", target=x, v=[w[0][0], w[1][0]], n=first(w))
            e["moved"] = not (np.array_equal(a, ca) and np.array_equal(b, cb))
            tuned = (w, x)
            log.append(f"reset to {x * 1e-10} for {w}")
        else:
            if tuned is None and rng.random() < .5:
                w = sweep()
            a, b = volts(w)
            two = w[0][0] != w[0][1] and w[1][0] != w[1][1] and rng.random() < .6
            k2 = 3 if isinstance(csd, LinearCSD) else 25   # coarse pixels may count a transition that crosses them
            res = np.array([rng.randrange(k2, 2 * k2 + 3), rng.randrange(k2, 2 * k2 + 3)] if two else [rng.randrange(2, 30)])
            r, err = call(sim.measure, a, b, resolution=res)
            e.update(ev="measure", v=[w[0][0], w[1][0]], n=first(w))
            if r is not None:
                occ = np.asarray(r[1])
                n0, e["n"] = e["n"], quant(occ.reshape(-1, 2)[0], 1e5)
                pot, err = call(sim.sensor.sensor_potential, occ, np.array(w[0]) * 1e-6, np.array(w[1]) * 1e-6)
                if pot is not None:
                    p0 = np.ravel(pot)[0]
                    at = np.ravel(sim.sensor.sensor_response(np.array([p0])))[0]
                    e.update(pot=quant(p0, 1e10), resp=quant(np.ravel(r[0])[0], 1e5), respat=quant(at, 1e5))
            # (a 2D scan may count a transition that crosses its first pixel, a 1D scan does not)
            if tuned is not None and tuned[0] == w and (r is None or n0 == e["n"]):
                e.update(fresh=True, target=tuned[1])
            log.append(f"measure {w} {res.tolist()}")
        e["err"] = err or ""
        e["changed"] = bool(before != snapshot(sim) or e.pop("moved", False) or
                            (sim2 is not None and b2 != (repr(sim2.sensor.offset_mu_sens), snapshot(sim2))))
        try:
            e["offset"] = quant(float(np.max(sim.sensor.offset_mu_sens)), 1e10)
        except (TypeError, ValueError):
            e["offset"] = quant(float("nan"), 1)
        events.append(e)
    return dict(tla=dict(ag=ag, ad=ad, offset=o, events=events), desc=dict(alpha_gate=ag, alpha_dot=ad, csd=type(csd).__name__, history=log))


def run(chk):
    chk.model("RetuneMC", workers=4)
    r = chk.tlc("RetuneMC", "RetuneMCkeep", workers=2, expect_ok=False, count=False)
    if "is violated" not in r.out:
        raise MachineryError("the variant that keeps the old offset should break the law\n" + r.out[-2000:])
    cases = [history(chk.rng) for _ in range(150 if chk.quick else 4000)]
    chk.validate("RetuneTrace", cases, workers=6, timeout=1500)
    chk.assumptions += ["sensors with one potential (SensorGeneric)", "potentials are compared within 3e-8 V"]
