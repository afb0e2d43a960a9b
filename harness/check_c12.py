"""C12 transition blurring."""
import numpy as np

from common import again, call, quant
from rngs import CountingSampler
from simcats.distortions import OccupationTransitionBlurringFermiDirac, OccupationTransitionBlurringGaussian


def span(rng):
    lo, w = rng.randrange(-3000, 3000), rng.randrange(50, 3000)
    return [lo, lo + w] if rng.random() < 0.5 else [lo + w, lo]


def line(rng, n):
    kind = rng.randrange(4)
    if kind == 0:
        v = [0] * n
        v[rng.randrange(n)] = rng.randrange(1, 9)
    elif kind == 1:
        k = rng.randrange(n)
        v = [rng.randrange(3)] * k + [rng.randrange(3, 6)] * (n - k)
    elif kind == 2:
        v = [rng.randrange(0, 6) for _ in range(n)]
    else:
        v = [rng.randrange(0, 6)] * n
    return v


def event(rng, obj, kind, smp, frozen, sigma_now):
    oned = rng.random() < 0.6
    r1, r2 = span(rng), span(rng)
    if oned:
        rows, cols = 0, rng.choice([1, 2, 3, 7, 12, 20, 31])
        f = rng.random()
        if f < 0.3:
            r1[1] = r1[0]
        elif f < 0.6:
            r2[1] = r2[0]
        elif f < 0.68:
            r1[1], r2[1] = r1[0], r2[0]
    else:
        rows, cols = rng.randrange(2, 5), rng.choice([2, 5, 9, 16, 24])
    large = rng.random() < 0.08
    if large:
        cols = rng.choice([65, 130, 260, 520, 1030]) if rows == 0 else rng.choice([65, 140, 300])
    range1, range2 = abs(r1[1] - r1[0]), abs(r2[1] - r2[0])
    if frozen:
        sigma = sigma_now
    else:
        per = [r / cols for r in ([range1, range2] if rows == 0 else [range1]) if r]
        px = rng.choice([0.15, 0.5, 1, 2.5, 6] + [14, 30] * large) * (0.6 + rng.random())
        sigma = max(1, int(px * min(per))) if per else rng.randrange(1, 500)
        if rng.random() < 0.06:
            sigma = rng.choice([0, -5])
        if smp is None:
            value = sigma / 10000
        else:
            value = smp
            smp.values, smp.n = [sigma / 10000], 0
        if isinstance(obj, type):
            obj = obj(sigma=value)
        else:
            obj.sigma = value
    # keep the width in a range the specification can sum up
    px = max([sigma * cols / r for r in ([range1, range2] if rows == 0 else [range1]) if r] or [0])
    if px > (51 if large else 11):
        return obj, None
    lines = [[line(rng, cols) for _ in range(2)] for _ in range(max(rows, 1))]
    occ = np.array(lines, dtype=float).transpose(0, 2, 1)  # rows, cols, dot
    lead = np.array([[rng.randrange(0, 4) for _ in range(cols)] for _ in range(max(rows, 1))])
    if rows == 0:
        occ, lead = occ[0], lead[0]
    if rng.random() < 0.3:
        occ = np.asfortranarray(occ)
    elif rng.random() < 0.3:
        big = np.zeros(tuple(2 * x for x in occ.shape[:-1]) + (2,))
        view = big[tuple(slice(None, None, 2) for _ in occ.shape[:-1]) + (slice(None),)]
        view[...] = occ
        occ = view
    else:
        occ = occ.copy()
    k = rng.choice([list, tuple, np.array, None, None])
    n0 = smp.n if smp else 0
    lead0 = lead.copy()
    out, err = call(obj.noise_function, occ, lead, *(k(x) if k else again(rng, slot, x) for slot, x in (("g1", [x / 10000 for x in r1]), ("g2", [x / 10000 for x in r2]))),
                    rng.choice([None, lambda *a, **kw: 1 / 0]), **({"freeze": True} if frozen else rng.choice([{}, {"freeze": False}])))
    res = []
    if err is None:
        o = np.asarray(out[0])
        if o.shape != occ.shape or np.shape(out[1]) != lead0.shape:
            err = "shape"
        else:
            o = o if rows else o[None]
            res = [quant(x, 1000) for r in o for x in (r[:, 0], r[:, 1])]
    only = []
    if large:
        change = [i for i in range(1, cols) if any(x[i] != x[i - 1] for r in lines for x in r)] or [0]
        far = lambda: int(rng.choice([0, 1, -1]) * rng.random() * 4 * px)
        only = sorted({min(max(x, 0), cols - 1) + 1 for x in [0, cols - 1] + [rng.randrange(cols) for _ in range(3)] + [rng.choice(change) + far() for _ in range(8)]})
    latest = obj.latest_sigma
    return obj, dict(kind=kind, rows=rows, cols=cols, range1=range1, range2=range2, frozen=frozen, sigma=sigma,
                inp=[x for r in lines for x in r], out=res, lead=bool(err is None and np.array_equal(out[1], lead0)),
                draws=(smp.n - n0) if smp else 0, sampled=smp is not None,
                only=only, latest=-10 ** 9 if latest is None else quant(latest, 10000), err=err or "")


def run(chk):
    chk.model("BlurMC")
    rng = chk.rng
    cases = []
    for i in range(400 if chk.quick else 4000):
        kind, cls = rng.choice([("fermi", OccupationTransitionBlurringFermiDirac), ("gauss", OccupationTransitionBlurringGaussian)])
        smp = CountingSampler([0.1]) if rng.random() < 0.5 else None
        obj = cls if rng.random() < 0.5 else cls(sigma=0.1)
        ev, sig = [], None
        for j in range(rng.randrange(1, 5)):
            frozen = sig is not None and rng.random() < 0.5
            obj, e = event(rng, obj, kind, smp, frozen, sig)
            if e is None:
                if not frozen:
                    break
                continue
            sig = e["sigma"]
            ev.append(e)
            chk.count("calls")
            chk.count("frozen_calls", int(frozen))
            chk.count("lines", len(e["inp"]))
        if ev:
            cases.append({"tla": ev})
    chk.validate("BlurTrace", cases)
