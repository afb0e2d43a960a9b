"""C15 sensors for sensor scans: potentials, series response, final rise, configuration."""
from scansensor import LARGE, Rig


def history(chk, rng):
    rise = rng.random() < 0.3
    if rng.random() < 0.1:
        # what only the sensor dot sees changes between two scans of the same sensor gate voltages
        r = Rig(chk, rng, rise=rng.random() < 0.7, alone=True)
        for _ in range(rng.randrange(2, 5)):
            r.scan("sensor", arrays=True)
            r.response(own=True)
            r.setting(rng.choice([2, 8, 9]))
        return r.case()
    r = Rig(chk, rng, rise=rise, lin=not rise and rng.random() < 0.15)
    for _ in range(rng.randrange(1, 5)):
        if rng.random() < 0.5:
            r.setting()
        elif rng.random() < 0.2:
            r.scan("both")
        else:
            r.scan("sensor" if rng.random() < 0.6 else "csd", arrays=rise, shape=rng.choice(LARGE) if rng.random() < 0.02 else None)
            if rise and rng.random() < 0.5:
                r.near_rise()
            r.response(own=rng.random() < 0.6)
            if rng.random() < 0.3:
                r.response(own=True)
    if rng.random() < 0.3:
        r.scan("sensor", arrays=True, shape=rng.choice([(2, 3), (4, 2), (0, 5)]))
        if r.pots is not None and (not r.lin or 0 <= min(r.last["out"][0]) <= max(r.last["out"][0]) <= 2 * 10 ** 6):
            r.image_event(r.simulate())
    return r.case()


def run(chk):
    chk.model("SensorScanMC")
    chk.validate("SensorScanTrace", [history(chk, chk.rng) for _ in range(1200 if chk.quick else 8000)], workers=6)
