"""C02 the order and the data flow of a measurement."""
import numpy as np

from common import call
from simcats import Simulation
from stubs import (Recorder, StubCSD, StubOcc, StubPot, StubResp, StubScanSensor, StubSensor, digest, resol, shape_of,
                   volt)


def rnd_range(rng, fixed=False):
    a = rng.randrange(-60, 60) / 1000
    b = a if fixed else a + rng.choice([-1, 1]) * rng.randrange(1, 90) / 1000
    r = [a, b]
    f = rng.randrange(3)
    return np.array(r) if f == 0 else (r if f == 1 else tuple(r))


def rnd_res(rng, big=9):
    if rng.random() < 0.6:
        r = [rng.randrange(2, big), rng.randrange(2, big)]
        f = rng.randrange(3)
        return np.array(r) if f == 0 else (r if f == 1 else tuple(r))
    n = rng.randrange(1, big)
    f = rng.randrange(4)
    return [n, [n], (n,), np.array([n])][f]


def flat(x):
    """none/list of distortions -> list of ids"""
    return [] if x is None else [d.ident for d in x]


def distortions(rng, rec, cls, most, base, **kw):
    r = rng.random()
    if r < 0.12:
        return None
    n = rng.randrange(0, most + 1)
    ids = rng.sample(range(base, base + 9), n)
    res = []
    for i in ids:
        if cls is StubOcc:
            extra = [(rnd_range(rng), rnd_range(rng), rnd_res(rng, 6)) for _ in range(rng.choice([0, 0, 1, 2]))]
            res.append(StubOcc(rec, i, rng.choice(["inplace", "copy"]), extra, rng.random() < 0.4))
        else:
            res.append(cls(rec, i))
    if len(res) > 1 and rng.random() < 0.1:
        res[-1] = res[0]
    return res


def configure(rng, rec, sim=None):
    """New simulation or some changes of an existing one."""
    parts = {
        "ideal_csd_config": lambda: StubCSD(rec, rng.randrange(4)),
        "sensor": lambda: (StubScanSensor(rec, rng.randrange(4), rng.choice([1, 2, 3])) if rng.random() < 0.6 else
                           StubSensor(rec, rng.randrange(4), rng.choice([1, 1, 2]))),
        "occupation_distortions": lambda: distortions(rng, rec, StubOcc, 4, 10),
        "sensor_potential_distortions": lambda: distortions(rng, rec, StubPot, 3, 30),
        "sensor_response_distortions": lambda: distortions(rng, rec, StubResp, 3, 50),
    }
    if sim is None:
        return Simulation(**{k: f() for k, f in parts.items()})
    for k, f in parts.items():
        if rng.random() < 0.25:
            setattr(sim, k, f())
    return sim


def one(rng, rec, sim, resolution=None):
    scan_sensor = isinstance(sim.sensor, StubScanSensor)
    op = "scan" if scan_sensor and rng.random() < 0.45 else "csd"
    if op == "scan" and rng.random() < 0.15:
        sim.ideal_csd_config = None
    if op == "csd" and sim.ideal_csd_config is None:
        sim.ideal_csd_config = StubCSD(rec, rng.randrange(4))
    res = rnd_res(rng) if resolution is None else resolution
    oned = len(resol(res)) == 1
    r1, r2 = rnd_range(rng, oned and rng.random() < 0.2), rnd_range(rng, oned and rng.random() < 0.2)
    f1 = f2 = None
    if rng.random() < 0.65:
        f1, f2 = rng.randrange(-90, 90) / 1000, rng.randrange(-90, 90) / 1000
    csd = sim.ideal_csd_config
    want = 0
    if op == "scan":
        occ = np.zeros(shape_of(res) + (2,))
        if csd is not None and f1 is not None:
            occ += np.array([f1 * 1000 + csd.ident, f2 * 1000 + 7 + csd.ident])
        want = digest(occ)
    ctx = {"op": op, "r1": volt(r1), "r2": volt(r2), "f1": volt(f1), "f2": volt(f2), "res": resol(res),
           "od": flat(sim.occupation_distortions) if op == "csd" else [], "pd": flat(sim.sensor_potential_distortions),
           "rd": flat(sim.sensor_response_distortions), "csd": -1 if csd is None else csd.ident,
           "sensor": sim.sensor.ident, "scan": scan_sensor, "want": want}
    rec.take()
    f = sim.measure if op == "csd" else sim.measure_sensor_scan
    kw = {} if f1 is None and rng.random() < 0.5 else (
        dict(volt_sensor_g1=f1, volt_sensor_g2=f2) if op == "csd" else dict(volt_g1=f1, volt_g2=f2))
    rec.on = True
    out, err = call(f, r1, r2, resolution=res, **kw)
    ev = rec.take()
    if err is None:
        ev.append({"ev": "return", "out": digest(out[0]), "occ": digest(out[1]), "lead": digest(out[2])})
    return {"tla": [ctx] + ev, "err": err}


def run(chk):
    rng = chk.rng
    chk.model("PipelineMC", cfg="PipelineMC" if chk.quick else "PipelineMCdeep", timeout=3000)
    cases = []
    for _ in range(260 if chk.quick else 4000):
        rec = Recorder()
        sim = configure(rng, rec)
        for _ in range(rng.randrange(1, 4)):
            c = one(rng, rec, sim)
            if c.pop("err"):
                chk.count("raised")
            cases.append(c)
            sim = configure(rng, rec, sim)
    # high-resolution requests (several hundred pixels per axis)
    rec = Recorder()
    sim = configure(rng, rec)
    for res in (300, [260], [3, 300], [290, 2]):
        c = one(rng, rec, sim, res)
        c.pop("err")
        cases.append(c)
    chk.extra["events"] = sum(len(c["tla"]) for c in cases)
    chk.extra["measurements"] = len(cases)
    chk.validate("PipelineTrace", cases)
    chk.assumptions.append("stub components stand for every implementation of the public interfaces")
