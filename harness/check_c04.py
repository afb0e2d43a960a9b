"""C04 ownership: hand-over copies, getters are live, metadata and results are snapshots, arguments stay untouched."""
import types
import warnings
import zlib
from copy import deepcopy

import numpy as np

from common import MachineryError
from simcats import Simulation, default_configs
from simcats.distortions import (OccupationDotJumps, OccupationTransitionBlurringFermiDirac,
                                 OccupationTransitionBlurringGaussian, SensorPotentialPinkNoise, SensorPotentialRTN,
                                 SensorResponseRTN, SensorResponseWhiteNoise)
from simcats.ideal_csd import IdealCSDGeometric
from simcats.sensor import SensorGeneric, SensorPeakGaussian, SensorPeakLorentzian
from stubs import Recorder, StubCSD, StubOcc, StubPot, StubResp, StubScanSensor, StubSensor

FIELDS = {"g1": "volt_limits_g1", "g2": "volt_limits_g2", "s1": "volt_limits_sensor_g1", "s2": "volt_limits_sensor_g2",
          "csd": "ideal_csd_config", "sensor": "sensor", "od": "occupation_distortions",
          "pd": "sensor_potential_distortions", "rd": "sensor_response_distortions"}


def content(x, seen=None):
    """Nested structure describing everything an object consists of (not its identity)."""
    seen = seen or []
    if any(x is y for y in seen) and not isinstance(x, (int, float, str, bool, type(None))):
        return "cycle"
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (int, float, np.integer, np.floating)):
        return repr(float(x))
    if isinstance(x, np.ndarray):
        return ("a", x.shape, np.asarray(x, dtype=float).tobytes())
    seen = seen + [x]
    if isinstance(x, (list, tuple)):
        return ("l",) + tuple(content(v, seen) for v in x)
    if isinstance(x, dict):
        return ("d",) + tuple((str(k), content(x[k], seen)) for k in sorted(x, key=str))
    if isinstance(x, np.random.Generator):
        return ("g", repr(x.bit_generator.state))
    if isinstance(x, Recorder) or callable(x) and not hasattr(x, "__dict__"):
        return type(x).__name__
    if isinstance(x, (types.FunctionType, types.MethodType, type)):
        return x.__qualname__
    return (type(x).__name__,) + tuple((k, content(v, seen)) for k, v in sorted(vars(x).items()))


def val(x):
    return zlib.crc32(repr(content(x)).encode()) & 0x3FFFFFFF


# ---------------------------------------------------------------- objects and their mutations
def make(f, rng, rec, real):
    if f in ("g1", "g2", "s1", "s2"):
        v = [-rng.randrange(300, 900) / 1000, rng.randrange(300, 900) / 1000]
        return np.array(v) if rng.random() < 0.7 else v
    seed = rng.randrange(10 ** 6)
    g = lambda: np.random.default_rng(seed)  # noqa
    if f == "csd":
        if not real:
            return StubCSD(rec, rng.randrange(99))
        src = default_configs["GaAs_v1"]["ideal_csd_config"].tct_params
        return IdealCSDGeometric(tct_params=[np.array(p) for p in src[: rng.randrange(10, 14)]], lut_entries=100)
    if f == "sensor":
        if not real:
            return StubScanSensor(rec, rng.randrange(99), 2) if rng.random() < 0.6 else StubSensor(rec, rng.randrange(99))
        if rng.random() < 0.4:
            return deepcopy(default_configs["GaAs_v2_extended_sensor"]["sensor"])
        peaks = [rng.choice([SensorPeakGaussian, SensorPeakLorentzian])(mu0=rng.random()) for _ in range(2)]
        return SensorGeneric(sensor_peak_function=rng.choice([peaks, peaks[0], None]),
                             alpha_dot=np.array([-rng.random(), -0.5]), alpha_gate=np.array([0.1, rng.random()]))
    n = rng.randrange(0, 4)
    if not real:
        c = {"od": StubOcc, "pd": StubPot, "rd": StubResp}[f]
        return [c(rec, rng.randrange(99)) for _ in range(n)]
    one = {
        "od": lambda: rng.choice([lambda: OccupationTransitionBlurringGaussian(0.001),
                                  lambda: OccupationTransitionBlurringFermiDirac(0.002),
                                  lambda: OccupationDotJumps(scale=0.01, lam=0.003, axis=rng.choice([0, 1]), rng=g())])(),
        "pd": lambda: rng.choice([lambda: SensorPotentialPinkNoise(sigma=0.1, fmin=0, rng=g()),
                                  lambda: SensorPotentialRTN(scale=0.02, std=0.1, height=0.1, ratio=0.7, rng=g())])(),
        "rd": lambda: rng.choice([lambda: SensorResponseWhiteNoise(sigma=0.1, rng=g()),
                                  lambda: SensorResponseRTN(scale=0.02, std=0.1, height=0.1, ratio=0.7, rng=g())])(),
    }[f]
    return [one() for _ in range(n)]


def mutate(f, x, rng, rec, real):
    """Changes an object in place. Returns False if that is not possible."""
    if x is None:
        return False
    if f in ("g1", "g2", "s1", "s2"):
        x[rng.randrange(2)] += rng.choice([-1, 1]) * rng.randrange(1, 50) / 1000
        return True
    if f == "csd":
        if not real:
            x.ident += 1
        elif rng.random() < 0.5:
            x.tct_params[rng.randrange(len(x.tct_params))][rng.choice([4, 6])] += 1e-5
        elif rng.random() < 0.5:
            x.tct_params.pop()
        else:
            x.lut_entries += 1
        return True
    if f == "sensor":
        if not real:
            x.ident += 1
        else:
            r = rng.randrange(4)
            if r == 0:
                x.alpha_dot[rng.randrange(2)] *= 1.1
            elif r == 1:
                x.alpha_gate[rng.randrange(2)] *= 1.1
            elif r == 2 and x.sensor_peak_function:
                x.sensor_peak_function[0].mu0 += 0.01
            elif r == 3 and x.sensor_peak_function and len(x.sensor_peak_function) > 1:
                x.sensor_peak_function.pop()
            else:
                x.alpha_gate = x.alpha_gate * 1.3
        return True
    if x and rng.random() < 0.6:
        d = x[rng.randrange(len(x))]
        if not real:
            d.ident += 1
        elif hasattr(d, "sigma"):
            d.sigma = d.sigma * 1.5
        elif rng.random() < 0.4:
            d.rng.random()
        else:
            d.scale = d.scale * 1.5
    elif x and rng.random() < 0.5:
        x.pop()
    else:
        x.extend(make(f, rng, rec, real) or make(f, rng, rec, real))
        x.reverse()
    return True


def live(sim):
    return {f: val(getattr(sim, a)) for f, a in FIELDS.items()}


ARGS = {"csd": {"a1": "sweep_range_g1", "a2": "sweep_range_g2", "v1": "volt_sensor_g1", "v2": "volt_sensor_g2",
                "res": "resolution"},
        "scan": {"a1": "sweep_range_sensor_g1", "a2": "sweep_range_sensor_g2", "v1": "volt_g1", "v2": "volt_g2",
                 "res": "resolution"}}


def history(rng, real, steps):
    rec = Recorder()
    origs = [(f, make(f, rng, rec, real)) for f in list(FIELDS) + rng.sample(list(FIELDS), 5)]
    sims = []
    for m in range(2):
        kw = {}
        for f, o in origs:
            if rng.random() < 0.7 or f in ("csd", "sensor"):
                kw[FIELDS[f]] = o
        sims.append(Simulation(**kw))
    metas, ops, outs = [], [], []
    args = [np.array([-0.15, -0.1]), np.array([-0.14, -0.12]), np.array([4, 3]), [-0.11, -0.16], [3, 5], 5]

    def obs():
        return {"orig": [val(o) for _, o in origs], "live": [live(s) for s in sims],
                "metas": [{**{f: val(m[a]) for f, a in FIELDS.items()}, **{k: val(m[a]) for k, a in ARGS[op].items()}}
                          for op, m in zip(ops, metas)],
                "args": [val(a) for a in args], "outs": [val(o) for o in outs]}

    ev = [{**obs()}]
    for _ in range(steps):
        m = rng.randrange(2)
        x = rng.random()
        if x < 0.17:
            i = rng.randrange(len(origs))
            f = origs[i][0]
            setattr(sims[m], FIELDS[f], origs[i][1])
            ev.append({"op": "set", "m": m + 1, "f": f, "i": i + 1})
        elif x < 0.2:
            f = rng.choice(["g1", "g2", "s1", "s2", "od", "pd", "rd"])
            setattr(sims[m], FIELDS[f], None)
            ev.append({"op": "setnone", "m": m + 1, "f": f, "val": val(None)})
        elif x < 0.35:
            i = rng.randrange(len(origs))
            if not mutate(origs[i][0], origs[i][1], rng, rec, real):
                continue
            ev.append({"op": "mut_orig", "i": i + 1, "val": val(origs[i][1])})
        elif x < 0.5:
            f = rng.choice(list(FIELDS))
            h = getattr(sims[m], FIELDS[f])
            if not mutate(f, h, rng, rec, real):
                continue
            ev.append({"op": "mut_live", "m": m + 1, "f": f, "val": val(h)})
        elif x < 0.62 and metas:
            i = rng.randrange(len(metas))
            f = rng.choice(list(FIELDS) + ["a1", "a2"])
            h = metas[i][ARGS[ops[i]][f] if f in ARGS[ops[i]] else FIELDS[f]]
            if f in ("a1", "a2"):
                if isinstance(h, tuple):
                    continue
                h[0] += 0.01
            elif not mutate(f, h, rng, rec, real):
                continue
            ev.append({"op": "mut_meta", "i": i + 1, "f": f, "val": val(h)})
        elif x < 0.68:
            i = rng.choice([0, 1, 3])
            args[i][rng.randrange(2)] += rng.choice([-1, 1]) * rng.randrange(1, 7) / 10000
            ev.append({"op": "mut_arg", "i": i + 1, "val": val(args[i])})
        elif x < 0.72 and outs:
            i = rng.randrange(len(outs))
            outs[i][rng.randrange(3)][...] += 1
            ev.append({"op": "mut_out", "i": i + 1, "val": val(outs[i])})
        elif x < 0.76 and metas:
            i = rng.randrange(len(metas))
            if any(metas[i][FIELDS[f]] is None for f in ("csd",)):
                continue
            try:
                sims[m] = Simulation(**{a: metas[i][a] for a in FIELDS.values()})
            except ValueError:
                continue
            ev.append({"op": "rebuild", "m": m + 1, "i": i + 1})
        else:
            s = sims[m]
            scan_able = hasattr(s.sensor, "get_sensor_scan_labels")
            op = "scan" if scan_able and rng.random() < 0.4 else "csd"
            fixed = None if rng.random() < 0.4 else -0.13
            if real and op == "scan":
                fixed = -0.13
            a1, a2 = args[rng.choice([0, 3])], args[1]
            res = args[rng.choice([2, 4, 5])]
            saved = {f: deepcopy(getattr(s, FIELDS[f])) for f in ("g1", "g2", "s1", "s2")}
            if any(v is not None and not (min(v) < -0.2 and max(v) > 0) for v in saved.values()):
                continue
            rec.take()
            names = ARGS[op]
            kw = {names["a1"]: a1, names["a2"]: a2, names["v1"]: fixed, names["v2"]: fixed, "resolution": res}
            given = {"a1": val(a1), "a2": val(a2), "v1": val(fixed), "v2": val(fixed), "res": val(res)}
            before = live(s)
            ids = {f: [d.ident for d in getattr(s, FIELDS[f]) or []] for f in ("od", "pd", "rd")} if not real else None
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = (s.measure if op == "csd" else s.measure_sensor_scan)(**kw)
            events = rec.take()
            eff = True
            if not real:
                used = {k: [e["id"] for e in events if e["ev"] == n] for k, n in (("od", "occ"), ("pd", "pd"), ("rd", "rd"))}
                eff = (used["rd"] == ids["rd"] and (op == "scan" or used["od"] == ids["od"])
                       and sorted(set(used["pd"])) == sorted(set(ids["pd"]))
                       and {e["id"] for e in events if e["ev"] in ("pot", "resp")} == {s.sensor.ident}
                       and {e["id"] for e in events if e["ev"] == "csd"} <= {s.ideal_csd_config.ident})
            metas.append(r[3])
            ops.append(op)
            outs.append(list(r[:3]))
            after = live(s)
            ev.append({"op": "measure", "m": m + 1, "after": {f: after[f] for f in ("od", "pd", "rd", "sensor")},
                       "given": given, "out": val(outs[-1]), "eff": bool(eff), "before": before})
        e = ev[-1]
        e["obs"] = obs()
        e.setdefault("eff", True)
    return ev


def run(chk):
    chk.model("IsolationMC", cfg="IsolationMC" if chk.quick else "IsolationMCdeep")
    r = chk.tlc("IsolationMC", cfg="IsolationMCnocopy", expect_ok=False, count=False)
    if "Invariant Refines is violated" not in r.out:
        raise MachineryError("the model without copies should be refuted")
    rng = chk.rng
    d0 = val(default_configs)
    cases = []
    for i in range(90 if chk.quick else 1200):
        cases.append({"tla": history(rng, False, 25)})
    for i in range(50 if chk.quick else 600):
        cases.append({"tla": history(rng, True, 20)})
    ops = {}
    for c in cases:
        for e in c["tla"][1:]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    chk.extra["steps"] = ops
    # simulations of the shipped configurations leave them alone, and are independent of each other
    for name, cfg in default_configs.items():
        a, b = Simulation(**cfg), Simulation(**cfg)
        lb = live(b)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for s in (a, a):
                s.measure(np.array([-0.15, -0.1]), np.array([-0.15, -0.1]), resolution=np.array([5, 4]))
            a.sensor.alpha_dot[0] = 5
            a.occupation_distortions.pop()
            a.volt_limits_g1[0] = 7
        if live(b) != lb:
            chk.violation("two simulations of a default configuration are not independent", name)
    if val(default_configs) != d0:
        chk.violation("default configurations are changed by simulations", "default_configs")
    chk.validate("IsolationTrace", cases)
