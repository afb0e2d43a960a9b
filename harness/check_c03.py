"""C03 additional data is consistent with the running measurement: frozen replay and composition of occupation distortions."""
import warnings

import numpy as np

from jumps import LinCSD, decode, lead_ok, lin_csd
from rngs import CountingSampler, RecGen
from simcats import Simulation
from simcats.distortions import (OccupationDotJumps, OccupationTransitionBlurringFermiDirac,
                                 OccupationTransitionBlurringGaussian)
from stubs import digest, resol, volt


def window(rng, oned):
    r = []
    for _ in range(2):
        lo, w = rng.randrange(-2000, 2000), rng.randrange(50, 900)
        r.append([lo / 10000, (lo + w) / 10000] if rng.random() < 0.5 else [(lo + w) / 10000, lo / 10000])
    if oned:
        if rng.random() < 0.2:
            r[0][1] = r[0][0]
        elif rng.random() < 0.25:
            r[1][1] = r[1][0]
        return np.array(r[0]), np.array(r[1]), rng.randrange(2, 14)
    return np.array(r[0]), np.array(r[1]), [rng.randrange(2, 9), rng.randrange(2, 9)]


def step_csd(volt_limits_g1, volt_limits_g2, resolution):
    """Electron occupations: steps (so that blurring matters) plus the voltage."""
    o, l = lin_csd(volt_limits_g1, volt_limits_g2, resolution)
    return np.floor(o * 200) + o, l


def contract(rng, seed):
    gen = RecGen(seed)
    kind = rng.choice(["jumps", "gauss", "fermi"])
    sampled = rng.random() < 0.7
    vals = [rng.randrange(10, 300) / 10000 for _ in range(5)]
    par = CountingSampler(vals) if sampled else vals[0]
    if kind == "jumps":
        d = OccupationDotJumps(scale=par, lam=CountingSampler(vals) if sampled else vals[1], axis=rng.choice([0, 1]),
                               ratio=rng.choice([0.5, 1, 1]), rng=gen)
    else:
        d = (OccupationTransitionBlurringGaussian if kind == "gauss" else OccupationTransitionBlurringFermiDirac)(
            sigma=par)
    draws = (lambda: d.scale.n if kind == "jumps" else d.sigma.n) if sampled else (lambda: 0)
    act = (lambda: bool(d.activated)) if kind == "jumps" else (lambda: True)
    ev, last = [], None
    for _ in range(rng.randrange(1, 6)):
        frozen = last is not None and rng.random() < 0.7
        oned = rng.random() < 0.5
        again = frozen and rng.random() < 0.5
        r1, r2, res = last[:3] if again else window(rng, oned)
        if frozen and kind == "jumps" and not again:
            # as many pixels along the jump gate as in the measurement, which only covers the other voltages
            n = last[2] if isinstance(last[2], int) else last[2][0 if d.axis == 1 else 1]
            res = n if isinstance(res, int) else ([n, res[1]] if d.axis == 1 else [res[0], n])
        o, l = step_csd(r1, r2, res)
        inp = digest(o)
        st, ab = gen.state(), act()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = d.noise_function(o, l, r1, r2, step_csd, freeze=frozen)
        win = volt(r1) + volt(r2) + resol(res)
        if frozen:
            same = again and all(np.allclose(a, b, rtol=0, atol=1e-9) for a, b in zip(out, last[3]))
            ev.append({"ev": "frozen", "win": win, "inp": inp, "draws": draws(), "still": gen.state() == st,
                       "same": bool(same), "act": act(), "actbefore": ab, "sampled": sampled})
        else:
            last = (r1, r2, res, [np.array(x) for x in out])
            ev.append({"ev": "measure", "win": win, "inp": inp, "draws": draws(), "still": True, "same": True,
                       "act": act() if kind == "jumps" else True, "actbefore": ab, "sampled": sampled})
    return ev


def composition(rng, seed):
    """Dot jumps along both gates in one simulation (in any order), with every sweep direction."""
    oned = rng.random() < 0.35
    r1, r2, res = window(rng, oned)
    w1, w2 = abs(r1[1] - r1[0]), abs(r2[1] - r2[0])
    w = {1: w1 or w2, 0: w2 or w1}
    axes = rng.choice([[0, 1], [1, 0], [0, 1], [1, 0], [0], [1]])
    if not oned and rng.random() < 0.1:
        res = [rng.randrange(10, 26), rng.randrange(10, 26)]
    od = [OccupationDotJumps(scale=w[a] * rng.choice([0.1, 0.2, 0.4, 0.7]), lam=w[a] * rng.choice([0.05, 0.15, 0.3, 0.7]),
                             axis=a, ratio=rng.choice([1, 1, 1, 0.6]), rng=RecGen(seed + a)) for a in axes]
    sim = Simulation(ideal_csd_config=LinCSD(), occupation_distortions=od)
    ev = []
    for _ in range(rng.randrange(1, 3)):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _, occ, lead, _ = sim.measure(r1, r2, resolution=res)
        ks = [decode(occ, r1, r2, a, other=False) if (r1 if a == 1 else r2)[0] != (r1 if a == 1 else r2)[1] else [[0]]
              for a in axes]
        ev.append({"ev": "compose", "ks": ks, "active": [bool(x.activated) for x in sim.occupation_distortions],
                   "lead": bool(np.all(lead_ok(occ, lead)))})
        if rng.random() < 0.5:
            r1, r2, res2 = window(rng, oned)
            res = res2
    return ev


def run(chk):
    rng = chk.rng
    chk.model("PipelineMC", cfg="PipelineMC" if chk.quick else "PipelineMCdeep", timeout=3000)
    cases, moved, both = [], 0, 0
    for i in range(500 if chk.quick else 8000):
        cases.append({"tla": contract(rng, chk.npseed("a", i))})
    for i in range(500 if chk.quick else 8000):
        ev = composition(rng, chk.npseed("b", i))
        for e in ev:
            m = [any(any(x) for x in k) for k in e["ks"]]
            moved += any(m)
            both += len(m) == 2 and all(m)
        cases.append({"tla": ev})
    chk.extra["compositions_with_jumps"], chk.extra["compositions_with_jumps_along_both_gates"] = moved, both
    chk.extra["frozen_calls"] = sum(e["ev"] == "frozen" for c in cases for e in c["tla"])
    chk.extra["frozen_calls_on_measured_window"] = sum(e["ev"] == "frozen" and e["same"] for c in cases for e in c["tla"])
    chk.validate("FreezeTrace", cases)
