"""C10 random telegraph noise."""
import copy

import numpy as np

from common import again, call, layout, quant
from rngs import CountingSampler, RecGen
from simcats.distortions import SensorPotentialRTN, SensorResponseRTN


def runs(x):
    x = np.asarray(x)
    if x.size == 0:
        return []
    edges = np.flatnonzero(np.diff(x)) + 1
    lens = np.diff(np.concatenate(([0], edges, [x.size])))
    return [[int(x[i]), int(n)] for i, n in zip(np.concatenate(([0], edges)), lens)]


def span(rng, fixed=False):
    lo = rng.randrange(-3000, 3000)
    w = 0 if fixed else rng.randrange(20, 3000)
    return [lo, lo + w] if rng.random() < 0.5 else [lo + w, lo]


def event(rng, obj, gen, big, quick):
    oned = rng.random() < 0.4
    r1, r2 = span(rng), span(rng)
    if oned and rng.random() < 0.5:
        r = rng.choice([r1, r2])
        r[1] = r[0]
    if oned and rng.random() < 0.15:
        r1[1], r2[1] = r1[0], r2[0]
    if big:
        rows, cols = (0, 10000 if not quick else 4000) if oned else rng.choice([(20, 200), (200, 20), (64, 64)] if quick else [(40, 300), (100, 100)])
    else:
        rows, cols = (0, rng.choice([1, 2, 7, 30, 300])) if oned else (rng.randrange(2, 20), rng.randrange(2, 20))
    range1, range2 = abs(r1[1] - r1[0]), abs(r2[1] - r2[0])
    # intended mean length in pixels
    px = rng.choice([0.4, 1, 1.7, 3, 6, 12]) * (rng.random() + 0.5)
    if oned:
        volt_per_px = max(range1, range2) / cols
    else:
        volt_per_px = min(range1 / cols, range2 / rows)
    scale = int(px * volt_per_px)
    if rng.random() < 0.04:
        scale = 0
    elif scale < 1 or scale * 1000 * max(rows, cols) > 2e9:
        scale = 1
    height = rng.choice([-1, 1]) * rng.randrange(2000, 50000)
    std = rng.choice([0, 0, abs(height) // 8 - 10, abs(height) // 20])
    ratio = rng.choice([1, 1, 1, 1, 0, 0.5])
    vals = [scale / 10000, std / 1e6, height / 1e6]
    smp, twin = None, None
    plain = list(vals)
    if rng.random() < 0.4:
        smp = [CountingSampler([v]) for v in vals]
        vals = smp
    if isinstance(obj, type):
        kw = {} if ratio == 1 and rng.random() < 0.5 else {"ratio": ratio}
        twin = obj(scale=plain[0], std=plain[1], height=plain[2], rng=copy.deepcopy(gen), **kw)
        obj = obj(scale=vals[0], std=vals[1], height=vals[2], rng=gen, **kw)
    else:
        obj.scale, obj.std, obj.height = vals
        obj.ratio = ratio
    base = np.array([[rng.randrange(-5, 5) for _ in range(cols)] for _ in range(rows or 1)], dtype=rng.choice([float, float, int]))
    if oned:
        base = base[0]
    base = layout(rng, base, "data")
    kind = rng.choice([list, tuple, np.array, None, None])
    before = base.copy()
    gen.take()
    args = (base,) + tuple(kind(x) if kind else again(rng, slot, x) for slot, x in (("g1", [x / 10000 for x in r1]), ("g2", [x / 10000 for x in r2])))
    out, err = call(obj.noise_function, *args)
    log = gen.take()
    same = True
    if twin is not None:
        second, err2 = call(twin.noise_function, before.copy(), *args[1:])
        gen.take()
        same = err == err2 and np.array_equal(second, out) and twin.activated == obj.activated
    noise = []
    if err is None:
        if np.shape(out) != base.shape:
            err = "shape"
        else:
            noise = quant(np.asarray(out).reshape(-1) - before.reshape(-1), 1e6)
    return obj, dict(rows=rows, cols=cols, range1=range1, range2=range2, scale=scale, std=std, height=height,
                ratio={0: 0, 1: 1}.get(ratio, -1), act=bool(obj.activated), runs=runs(noise), same=bool(np.array_equal(base, before)), twin=bool(same),
                p=[quant(x[1], 1e6) for x in log if x[0] == "geometric"], err=err or "",
                draws=[q.n for q in smp] if smp and obj.activated else [])


def run(chk):
    chk.model("RtnMC")
    rng = chk.rng
    cases = []
    for i in range(180 if chk.quick else 6000):
        gen = RecGen(chk.npseed(i))
        cls = rng.choice([SensorPotentialRTN, SensorResponseRTN])
        if rng.random() < 0.5:
            obj = cls
        else:
            obj = cls(scale=1.0, std=1.0, height=1.0, ratio=rng.choice([0, 1]))
            obj.rng = gen
        ev = []
        for _ in range(rng.randrange(1, 4) if i % 9 else 1):
            obj, e = event(rng, obj, gen, i % 9 == 0, chk.quick)
            ev.append(e)
        cases.append({"tla": ev, "desc": [{k: v for k, v in e.items() if k != "runs"} | {"runs": e["runs"][:20]} for e in ev]})
        for e in ev:
            chk.count("calls")
            chk.count("active_calls", int(e["act"]))
            chk.count("blocks", len(e["runs"]))
    chk.validate("RtnTrace", cases)
