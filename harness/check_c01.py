"""C01 admission of requests and configuration values."""
import warnings

import numpy as np

from common import call
from simcats import Simulation
from simcats.ideal_csd import IdealCSDGeometric
from simcats.ideal_csd.geometric import ideal_csd_geometric
from stubs import Recorder, StubCSD, StubOcc, StubPot, StubResp, StubScanSensor, StubSensor

SCALE = 1000.0


def to_volt(o):
    k = (o + 1) // 3
    d = o - 3 * k
    v = k / SCALE
    if d:
        v = float(np.nextafter(v, np.inf if d > 0 else -np.inf))
    return v


def to_ord(v):
    k = int(round(float(v) * SCALE))
    g = k / SCALE
    return 3 * k + (0 if v == g else (1 if v > g else -1))


def conc_range(o, rng, plain=False):
    v = [to_volt(x) for x in o]
    if all(float(x).is_integer() for x in v) and not plain and rng.random() < 0.5:
        v = [int(x) for x in v]
    form = 0 if plain else rng.randrange(3)
    return np.array(v) if form == 0 else (v if form == 1 else tuple(v))


def conc_res(res, rng):
    res = [int(x) for x in res]
    if len(res) == 1 and rng.random() < 0.5:
        return res[0]
    f = rng.randrange(3)
    return np.array(res) if f == 0 else (res if f == 1 else tuple(res))


def conc_volt(f, rng):
    if not f:
        return None
    v = to_volt(f[0])
    r = rng.random()
    if v.is_integer() and r < 0.5:
        return int(v)
    return np.float64(v) if r < 0.7 else v


def limits(o, rng):
    if not len(o):
        return None
    v = [to_volt(x) for x in o]
    return np.array(v) if rng.random() < 0.7 else v


FIELDS = ["g1", "g2", "s1", "s2", "csd", "sensor", "od", "pd", "rd"]
ATTR = {"g1": "volt_limits_g1", "g2": "volt_limits_g2", "s1": "volt_limits_sensor_g1", "s2": "volt_limits_sensor_g2",
        "csd": "ideal_csd_config", "sensor": "sensor", "od": "occupation_distortions",
        "pd": "sensor_potential_distortions", "rd": "sensor_response_distortions"}


def seen(sim):
    r = {}
    for f in ("g1", "g2", "s1", "s2"):
        v = getattr(sim, ATTR[f])
        r[f] = [] if v is None else [to_ord(x) for x in np.ravel(v)]
    r["csd"] = "none" if sim.ideal_csd_config is None else "csd"
    from simcats.sensor import SensorScanSensorInterface
    r["sensor"] = "scan" if isinstance(sim.sensor, SensorScanSensorInterface) else "plain"
    for f in ("od", "pd", "rd"):
        v = getattr(sim, ATTR[f])
        r[f] = "none" if v is None else f"n{len(v)}:" + ",".join(str(x.ident) for x in v)
    return r


def watched(f, *a, **kw):
    """Runs code under test: (value, exception name or None, whether it warned)."""
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out = f(*a, **kw)
        return out, None, any(x.category is UserWarning for x in w)
    except Exception as e:  # noqa
        return None, type(e).__name__, False


# parallel transitions far away from all voltages of the requests
PARAMS = [np.array([4000.0, 4000.0, 0.5, -0.5, -50.0, 90000.0 + 9000 * k, 50.0, 90000.0 + 9000 * k]) for k in range(3)]


def ask_ideal(rng):
    """Ways to ask a geometric ideal CSD directly."""
    kw = rng.choice([{}, {"lut_entries": 50}, {"cdf_type": "cauchy"}])
    if rng.random() < 0.5:
        return IdealCSDGeometric(tct_params=PARAMS, rotation=-np.pi / 4, **kw).get_csd_data
    return lambda a, b, **r: ideal_csd_geometric(PARAMS, a, b, **r, **{"rotation": -np.pi / 4, **kw})


def do_request(sim, rec, req, rng):
    a, b = conc_range(req["r1"], rng), conc_range(req["r2"], rng)
    f1, f2 = conc_volt(req["f1"], rng), conc_volt(req["f2"], rng)
    res = conc_res(req["res"], rng)
    rec.take()
    # without a resolution: 100 pixels for both gates
    kw = dict(resolution=res)
    if list(req["res"]) == [100, 100] and rng.random() < 0.7:
        kw = {}
    if req["op"] == "csd":
        if not (f1 is None and f2 is None and rng.random() < 0.5):
            kw.update(volt_sensor_g1=f1, volt_sensor_g2=f2)
        out, err, warned = watched(sim.measure, a, b, **kw)
    elif req["op"] == "ideal":
        out, err, warned = watched(ask_ideal(rng), a, b, **kw)
    else:
        if not (f1 is None and f2 is None and rng.random() < 0.5):
            kw.update(volt_g1=f1, volt_g2=f2)
        out, err, warned = watched(sim.measure_sensor_scan, a, b, **kw)
    touched = len(rec.take()) or (req["op"] == "ideal" and err is None)
    shape = [-1]
    if err is None:
        s0 = list(np.shape(out[0]))
        if req["op"] == "csd":
            same = list(np.shape(out[1])) == s0 + [2] and list(np.shape(out[2])) == s0
        elif req["op"] == "ideal":
            s0 = list(np.shape(out[1]))
            same = list(np.shape(out[0])) == s0 + [2] and not np.any(out[0]) and not np.any(out[1])
        else:
            same = list(np.shape(out[1])) == s0 and list(np.shape(out[2])) == s0
        shape = s0 if same else [-1]
    return {"op": req["op"], "req": req, "outcome": err or "ok", "touched": 1 if touched else 0, "shape": shape, "warned": warned,
            "seen": seen(sim)}


def build(rec, cfg, rng):
    return Simulation(volt_limits_g1=limits(cfg["g1"], rng), volt_limits_g2=limits(cfg["g2"], rng),
                      volt_limits_sensor_g1=limits(cfg["s1"], rng), volt_limits_sensor_g2=limits(cfg["s2"], rng),
                      ideal_csd_config=None if cfg["csd"] == "none" else StubCSD(rec),
                      sensor=StubScanSensor(rec) if cfg["sensor"] == "scan" else StubSensor(rec))


class NotASensor:
    def sensor_potential(self, *a, **k):
        return 0

    sensor_response = get_csd_data = noise_function = sensor_potential


def value(field, rng, rec):
    """A configuration value: (python object, description for the specification)."""
    r = rng.random()
    if field in ("g1", "g2", "s1", "s2"):
        if r < 0.15:
            return None, {"kind": "none", "value": []}
        if r < 0.75:
            lo = rng.randrange(-8, 4) * 3 * rng.choice([1, 1000])
            hi = lo + rng.randrange(1, 12) * 3 * rng.choice([1, 1000])
            return limits([lo, hi], rng), {"kind": "pair", "value": [lo, hi]}
        bad = [np.array([0.1]), np.array([0.1, 0.2, 0.3]), [0.5], [0.1, 0.2, 0.3], "ab", 0.5, np.array(0.5), {}, []]
        return bad[rng.randrange(len(bad))], {"kind": "bad", "value": []}
    if field == "csd":
        if r < 0.2:
            return None, {"kind": "none", "value": "none"}
        if r < 0.7:
            return StubCSD(rec, rng.randrange(5)), {"kind": "csd", "value": "csd"}
        return [NotASensor(), StubSensor(rec), "GaAs_v1", 3, StubCSD][rng.randrange(5)], {"kind": "bad", "value": ""}
    if field == "sensor":
        if r < 0.15:
            return None, {"kind": "none", "value": ""}
        if r < 0.4:
            return StubSensor(rec), {"kind": "plain", "value": ""}
        if r < 0.7:
            return StubScanSensor(rec), {"kind": "scan", "value": ""}
        return [NotASensor(), StubCSD(rec), "x", 3, StubSensor][rng.randrange(5)], {"kind": "bad", "value": ""}
    mk = {"od": StubOcc, "pd": StubPot, "rd": StubResp}
    if r < 0.15:
        return None, {"kind": "none", "value": "none"}
    ids = [rng.randrange(1, 9) for _ in range(rng.randrange(0, 4))]
    lst = [mk[field](rec, i) for i in ids]
    if r < 0.7:
        return lst, {"kind": "list", "value": f"n{len(lst)}:" + ",".join(map(str, ids))}
    wrong = [NotASensor(), StubCSD(rec), None, 5] + [mk[k](rec, 1) for k in mk if k != field]
    lst.insert(rng.randrange(len(lst) + 1), wrong[rng.randrange(len(wrong))])
    return lst, {"kind": "bad", "value": ""}


def random_request(rng, cfg):
    """Requests around the current limits: mostly admissible, with zero to two deviations."""
    op = rng.choice(["csd", "csd", "scan", "scan", "ideal"])
    sw = ("g1", "g2") if op != "scan" else ("s1", "s2")
    fx = ("s1", "s2") if op == "csd" else ("g1", "g2")

    def pick(lim, where):
        lo, hi = (lim if len(lim) else (-9, 12))
        if hi <= lo:
            lo, hi = hi, lo
        if where == "in":
            return rng.choice([lo, hi, lo + 3 * rng.randrange(0, max(1, (hi - lo) // 3 + 1))])
        if not lo <= 0 <= hi and rng.random() < 0.5:
            return 0    # zero volt is a voltage like any other
        return rng.choice([lo - 1, hi + 1, lo - 30, hi + 30, lo - 3000, hi + 3000])

    dev = set(rng.sample(["r1", "r2", "f1", "f2", "one", "len", "res", "fix", "px"], rng.choice([0, 0, 0, 1, 1, 2])))
    r1 = [pick(cfg[sw[0]], "in"), pick(cfg[sw[0]], "in")]
    r2 = [pick(cfg[sw[1]], "in"), pick(cfg[sw[1]], "in")]
    if "r1" in dev:
        r1[rng.randrange(2)] = pick(cfg[sw[0]], "out")
    if "r2" in dev:
        r2[rng.randrange(2)] = pick(cfg[sw[1]], "out")
    f1, f2 = [], []
    if rng.random() < 0.7 or "f1" in dev or "f2" in dev:
        f1, f2 = [pick(cfg[fx[0]], "in")], [pick(cfg[fx[1]], "in")]
        if "f1" in dev:
            f1 = [pick(cfg[fx[0]], "out")]
        if "f2" in dev:
            f2 = [pick(cfg[fx[1]], "out")]
    if "one" in dev:
        if rng.random() < 0.5:
            f1, f2 = f1 or [pick(cfg[fx[0]], "in")], []
        else:
            f1, f2 = [], f2 or [pick(cfg[fx[1]], "in")]
    if "len" in dev:
        bad = rng.choice([r1, r2])
        if rng.random() < 0.5:
            bad.pop()
        else:
            bad.append(bad[0])
    res = [rng.randrange(2, 8), rng.randrange(2, 8)] if rng.random() < 0.6 else [rng.randrange(1, 9)]
    if len(res) == 2 and rng.random() < 0.85:
        for r in (r1, r2):
            if len(r) == 2 and r[0] == r[1]:
                r[1] = r[0] + 3
    elif rng.random() < (0.2 if op == "ideal" else 0.04):
        res = [100, 100]
    if "res" in dev:
        res = [rng.randrange(2, 5) for _ in range(rng.randrange(3, 5))]
    if "fix" in dev:
        r = rng.choice([r1, r2])
        r[-1] = r[0]
    if "px" in dev:
        res = rng.choice([[1, 4], [4, 1], [1, 1], [0, 3], [3, 0], [-2, 3], [1]])
    if op == "ideal":
        f1 = f2 = []
        # no scans of extremely different steps
        r1, r2 = [300 * (x // 300) for x in r1], [300 * (x // 300) for x in r2]
    return {"op": op, "r1": r1, "r2": r2, "f1": f1, "f2": f2, "res": res}


EMPTY = {"g1": [], "g2": [], "s1": [], "s2": [], "csd": "none", "sensor": "plain", "od": "none", "pd": "none",
         "rd": "none"}


def run(chk):
    rng = chk.rng
    # 1. every abstract request of the specification (enumerated by TLC), replayed into the code
    r = chk.model("AdmissionMC", env={"ADM_FULL": "0" if chk.quick else "1"}, timeout=1200, mem="6g")
    reqs = r.printed("REQ")
    chk.extra["requests_enumerated_by_tlc"] = len(reqs)
    single = [q for q in reqs if q["n"] <= 1]
    many = [q for q in reqs if q["n"] > 1]
    rng.shuffle(many)
    todo = single + many[: (6000 if chk.quick else 40000)]
    chk.extra["requests_replayed"] = len(todo)
    rec = Recorder()
    sims = {}
    bad = 0
    for q in todo:
        key = repr(q["cfg"])
        if key not in sims:
            sims[key] = build(rec, q["cfg"], rng)
        e = do_request(sims[key], rec, q["req"], rng)
        want = "ok" if q["n"] == 0 else "ValueError"
        shp = [q["req"]["res"][1], q["req"]["res"][0]] if len(q["req"]["res"]) == 2 else q["req"]["res"]
        warn = q["req"]["op"] == "scan" and q["cfg"]["csd"] != "none" and not q["req"]["f1"]
        if e["outcome"] != want or (want == "ok" and e["warned"] != warn) or (e["touched"] != (1 if want == "ok" else 0)) or (want == "ok" and e["shape"] != shp):
            bad += 1
            if bad <= 20:
                chk.violation("replayed request: outcome differs from the specification",
                              {"cfg": q["cfg"], "req": q["req"], "expected": want, "observed": e["outcome"],
                               "touched": e["touched"], "shape": e["shape"]})
    chk.traces += len(todo)
    # 2. recorded histories of configuration changes and requests, validated by TLC
    cases = []
    for h in range(150 if chk.quick else 1500):
        rec = Recorder()
        cfg = dict(EMPTY)
        kw = {}
        for f in FIELDS:
            if rng.random() < 0.75:
                v, d = value(f, rng, rec)
                while d["kind"] == "bad":
                    v, d = value(f, rng, rec)
                kw[ATTR[f]] = v
                if f == "sensor":
                    cfg[f] = "plain" if d["kind"] == "none" else d["kind"]
                else:
                    cfg[f] = d["value"]
        if rng.random() < 0.8 and cfg["csd"] == "none":
            kw["ideal_csd_config"] = StubCSD(rec)
            cfg["csd"] = "csd"
        sim, err = call(Simulation, **kw)
        if err:
            chk.violation("an admissible configuration was refused by the constructor", {"cfg": cfg, "error": err})
            continue
        events = [{"cfg": dict(cfg)}]
        cur = dict(cfg)
        for _ in range(25):
            x = rng.random()
            if x < 0.3:
                f = rng.choice(FIELDS)
                v, d = value(f, rng, rec)
                if rng.random() < 0.75:
                    _, err = call(setattr, sim, ATTR[f], v)
                    events.append({"op": "set", "field": f, "v": d, "outcome": err or "ok", "seen": seen(sim)})
                elif d["kind"] == "bad":
                    _, err = call(Simulation, **{ATTR[f]: v})
                    events.append({"op": "new", "field": f, "v": d, "outcome": err or "ok", "seen": seen(sim)})
            else:
                events.append(do_request(sim, rec, random_request(rng, seen(sim)), rng))
                chk.count("history_requests_ok", 1 if events[-1]["outcome"] == "ok" else 0)
        chk.count("history_events", len(events) - 1)
        cases.append({"tla": events})
    chk.validate("AdmissionTrace", cases)
