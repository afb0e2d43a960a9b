"""C17 deformed Coulomb peaks."""
import random

import numpy as np

from common import call, quant
from scansensor import LARGE, Rig, build_shift, rand_shift

FINDING = "sensor scan of a Simulation with deformed peaks"
FINDING_SEEDS = [2, 10, 16, 24, 35]


def history(chk, rng, finding=False):
    r = Rig(chk, rng, deformed=True)
    for _ in range(1 if finding else rng.randrange(1, 4)):
        if rng.random() < 0.3:
            r.setting()
        if not finding and rng.random() < 0.1:
            r.scan("csd", arrays=True, small=True)
            if r.pots is not None:
                r.response(own=rng.random() < 0.6)
        r.scan("sensor", arrays=True, small=True, shape=(rng.choice([0, 0, 2, 3, 5]), rng.choice([2, 3, 6, 12])) if finding or rng.random() < 0.8 else (0, rng.choice([1, 2, 30])) if rng.random() < 0.9 else rng.choice(LARGE))
        if r.pots is None:
            break
        if rng.random() < 0.6 or finding:
            r.aim()
        if finding:
            img = r.simulate()
            r.image_event(img)
            break
        r.response(own=rng.random() < 0.4)
        k = rng.random()
        if k < 0.3:
            r.labels()
        elif k < 0.5:
            r.simulate()
    return r.case()


class Arms:
    def __init__(self, a):
        self.alpha_sensor_gate = a


def direct(chk, rng):
    """A deformation on its own, linked to a sensor that only has lever arms."""
    ev = []
    for _ in range(6):
        q = rand_shift(rng)
        if q["kind"] == "none":
            continue
        norm = rng.choice([5, 13, 50, 100, 130])
        a, b = {5: (3, 4), 13: (5, 12), 50: (30, -40), 100: (100, 0), 130: (-50, 120)}[norm]
        d = build_shift(q, norm)
        d.sensor = Arms(np.array([[a, b], [1, 2], [2, 1]]) / 100)
        mu0 = rng.randrange(-500000, 500000)
        top = q.get("r", rng.choice([10, 500]))
        n = rng.choice([0, 1, 2, 5])
        ds = [rng.choice([0, top, -top, rng.randrange(-2 * abs(top), 2 * abs(top))]) for _ in range(max(n, 1))]
        x = ds[0] * 1e-4 if n == 0 else np.array(ds) * 1e-4
        if q["kind"] == "circle":
            # the border of the circle exactly is a matter of rounding
            x = x * (1 - 1e-12)
        before = np.array(x)
        out, err = call(d.calc_mu, dist=x, mu0=mu0 * 1e-6)
        e = dict(ev="calc", q=q, mu0=mu0, norm=norm, d=ds, out=[], err=err or "")
        if err is None:
            if np.shape(out) != np.shape(x) or (n == 0) != np.isscalar(out):
                e["err"] = "shape"
            elif not np.array_equal(before, x):
                e["err"] = "arguments changed"
            else:
                e["out"] = quant(np.ravel(out), 1e6)
        ev.append(e)
        chk.count("deformed potentials", len(ds))
    return {"tla": ev}


def run(chk):
    chk.model("SensorScanMC")
    rng = chk.rng
    cases = [history(chk, rng) for _ in range(500 if chk.quick else 6000)] + [direct(chk, rng) for _ in range(200 if chk.quick else 3000)]
    for k in FINDING_SEEDS:
        c = history(chk, random.Random(f"finding-{k}"), finding=True)
        c["key"], c["clause"] = FINDING, "response"
        cases.append(c)
    chk.validate("SensorScanTrace", [c for c in cases if c["tla"]], workers=6)
