"""C16 label masks of sensor scans."""
from scansensor import LARGE, Rig


def history(chk, rng):
    r = Rig(chk, rng)
    for _ in range(rng.randrange(1, 4)):
        if rng.random() < 0.3:
            r.setting()
        r.scan("sensor", arrays=True, small=rng.random() < 0.7,
               shape=(rng.choice([0, 2, 3, 5]), rng.choice([2, 3, 6, 12, 20])) if rng.random() < 0.96 else rng.choice(LARGE))
        if r.pots is None:
            break
        r.aim()
        if rng.random() < 0.3:
            r.simulate()
        else:
            r.labels()
    return r.case()


def run(chk):
    chk.model("SensorScanMC")
    chk.validate("SensorScanTrace", [history(chk, chk.rng) for _ in range(900 if chk.quick else 8000)], workers=6)
