"""C09 dot jumps: block-wise shifts towards lower voltages, in volts, for every direction of the sweep."""
import numpy as np

from jumps import call_jump
from rngs import CountingSampler, RecGen
from simcats.distortions import OccupationDotJumps


def history(rng, seed, quick):
    gen = RecGen(seed)
    axis = rng.choice([0, 1])
    ratio = rng.choice([1, 1, 1, 1, 1, 0, 0.5])
    big = rng.random() < 0.06
    ev = []
    n = rng.choice([1, 2, 3, 5, 8, 12, 24]) if not big else rng.choice([5, 7, 90])
    if not big and rng.random() < 0.04:
        n = rng.choice([66, 130, 258, 300])
    sampler = rng.random() < 0.3
    dj = None
    for _ in range(rng.randrange(1, 5)):
        # everything in units of 1e-4 V
        oned = n == 1 or rng.random() < 0.4
        if big:
            oned = n > 20 or rng.random() < 0.5
        span = {}
        for g in (0, 1):
            lo = rng.randrange(-2000, 2000)
            w = rng.randrange(10, 900)
            span[g] = [lo, lo + w] if rng.random() < 0.5 else [lo + w, lo]
        fixed = oned and rng.random() < 0.12
        if fixed:
            span[axis][1] = span[axis][0]
        elif oned and rng.random() < 0.4:
            span[1 - axis][1] = span[1 - axis][0]
        if big and oned and rng.random() < 0.8:
            span[1 - axis][1] = span[1 - axis][0]
        r1, r2 = [x / 10000 for x in span[1]], [x / 10000 for x in span[0]]
        width = abs(span[axis][1] - span[axis][0]) or 1
        # mean block width in pixels 0.3 .. n, mean height 0 .. n and (rarely) far more
        scale = max(1, int(width * rng.choice([0.05, 0.15, 0.3, 0.5, 0.8, 1.5]) * rng.random()))
        lam = int(width * rng.choice([0, 0.05, 0.1, 0.3, 0.6, 1.2] if n < 50 else [0, 0.01, 0.05, 0.2]))
        if big:
            scale, lam = max(1, width // 3), width * rng.choice([25, 45]) if n < 20 else max(1, width // 20)
        other = rng.randrange(2, 6)
        res = n if oned else ([n, other] if axis == 1 else [other, n])
        ev_s, ev_l = scale / 10000, lam / 10000
        if sampler:
            ev_s, ev_l = CountingSampler([ev_s]), CountingSampler([ev_l])
        if dj is None and rng.random() < 0.5:
            kw = {} if ratio == 1 and rng.random() < 0.5 else {"ratio": ratio}
            dj = OccupationDotJumps(scale=ev_s, lam=ev_l, axis=axis, rng=gen, **kw)
        elif dj is None:
            dj = OccupationDotJumps(0.01, 0.01, 1 - axis)
            dj.axis, dj.ratio, dj.rng, dj.scale, dj.lam = axis, ratio, gen, ev_s, ev_l
        else:
            dj.scale, dj.lam = ev_s, ev_l
        with_gen = not (not oned and rng.random() < 0.08)
        e = call_jump(dj, gen, r1, r2, res, False, with_gen, rng.random() < 0.85)
        if sampler and e["act"] and (dj.scale.n != 1 or dj.lam.n != 1):
            e["p"] = [-1]
        e.update(scale=scale, lam=lam, range=width, ratio={0: 0, 1: 1}.get(ratio, -1))
        ev.append(e)
        # additional data for the running measurement
        for _ in range(rng.randrange(0, 3)):
            if fixed:
                break
            q1, q2 = list(r1), list(r2)
            res_f = res
            if oned:
                d = rng.randrange(-300, 300) / 10000
                q = q1 if rng.random() < 0.5 else q2
                q[0], q[1] = q[0] + d, q[1] + d
            else:
                q = q2 if axis == 1 else q1
                d = rng.randrange(1, 300) / 10000
                if rng.random() < 0.4:
                    q[0] = q[1] = min(q) - d
                    res_f = n
                else:
                    q[0], q[1] = min(q) - 2 * d, min(q) - d
                    m = rng.randrange(2, 5)
                    res_f = [n, m] if axis == 1 else [m, n]
            f = call_jump(dj, gen, q1, q2, res_f, True, True, rng.random() < 0.85)
            f.update(scale=scale, lam=lam, range=width, ratio=-1)
            ev.append(f)
    return ev


def run(chk):
    chk.model("JumpsMC", cfg="JumpsMC" if chk.quick else "JumpsMCdeep", timeout=3000, mem="6g")
    rng = chk.rng
    cases = []
    stats = {"measure": 0, "active": 0, "shifted_pixels": 0, "frozen": 0, "largest_jump": 0}
    for i in range(600 if chk.quick else 15000):
        ev = history(rng, chk.npseed(i), chk.quick)
        for e in ev:
            stats["measure"] += e["ev"] == "measure"
            stats["frozen"] += e["ev"] == "frozen"
            stats["active"] += e["act"]
            ks = [x for x in e["k"][0] if 0 < x < 10 ** 6]
            stats["shifted_pixels"] += len(ks)
            stats["largest_jump"] = max([stats["largest_jump"]] + ks)
        cases.append({"tla": ev})
    chk.extra.update(stats)
    chk.validate("JumpsTrace", cases)
