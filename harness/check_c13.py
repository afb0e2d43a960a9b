"""C13 samplers of parameters."""
import math

import numpy as np

from common import call, quant
from simcats.support_functions import (ExponentialSamplingRange, LogNormalSamplingRange, NormalSamplingRange,
                                       UniformSamplingRange)

UNIT = 100000  # grid units per value range


def build(kind, rng, seed, par):
    kw = dict(total_range=par["total"], rng=np.random.default_rng(seed))
    if par["w"] is not None:
        kw["sampling_range"] = par["w"]
    if kind == "normal":
        return NormalSamplingRange(std=par["std"], **({"mean": par["mean"]} if par["mean"] is not None else {}), **kw)
    if kind == "uniform":
        return UniformSamplingRange(**kw)
    if kind == "lognormal":
        return LogNormalSamplingRange(mean=par["mean"], sigma=par["std"], **kw)
    return ExponentialSamplingRange(scale=par["std"], **kw)


def case(chk, rng, kind, i, n):
    width = rng.choice([0.001, 0.4, 1.0, 20.0])
    lo = rng.choice([-3.0, -0.2, 0.0, 0.5]) * width
    if kind == "lognormal":
        lo = rng.choice([0.05, 0.3, 1.0])
        width = rng.choice([0.5, 3.0])
    hi = lo + width
    narrow = rng.random()
    w = None if narrow < 0.45 else (width * rng.choice([0.1, 0.3, 0.7]) if narrow < 0.85 else width * rng.choice([1.0001, 1.5, 3]))
    whole = w is None or w >= width
    par = dict(total=(lo, hi), w=w, mean=None, std=None)
    reverse = kind == "exp" and rng.random() < 0.5
    if reverse:
        par["total"] = (hi, lo)
    if rng.random() < 0.3:
        par["total"] = list(par["total"]) if rng.random() < 0.5 else np.array(par["total"])
    if kind == "normal":
        par["std"] = width * rng.choice([0.2, 0.5, 2.0])
        par["mean"] = rng.choice([None, lo + width * rng.choice([0.1, 0.5, 0.8, 1.2])])
        if not whole and par["mean"] is not None:
            par["std"] = width  # keep rejection sampling short
    if kind == "lognormal":
        par["mean"], par["std"] = math.log(lo + rng.random() * width), rng.choice([0.4, 1.0])
        if not whole:
            par["std"] = 1.0
    if kind == "exp":
        par["std"] = rng.choice([0.2, 0.5, 2.0])
    seed = chk.npseed(i)

    def work():
        a, b = build(kind, rng, seed, par), build(kind, rng, seed, par)
        last = a.last_sample() is None
        xs, same = [], True
        for j in range(n):
            x = a.sample_parameter()
            last = last and a.last_sample() == x and a.last_sample() == x
            xs.append(float(x))
            if j < 20:
                same = same and b.sample_parameter() == x
        return xs, last, same
    res, err = call(work)
    c = dict(kind=kind, err=err or "", x=[0], lo=0, hi=UNIT, w=-1 if w is None else quant(w / width, UNIT), last=True, twin=True, wide=0,
             dist="uniform", z=[], counts=[], out=0)
    desc = {"kind": kind, "seed": seed, "par": {k: str(v) for k, v in par.items()}}
    if err is None:
        xs, last, same = res
        c.update(x=quant((np.array(xs) - lo) / width, UNIT)[:400], last=bool(last), twin=bool(same),
                 out=sum(1 for x in xs if not lo - 1e-9 * width <= x <= hi + 1e-9 * width))
        # a few far samples decide about the width, too
        srt = sorted(xs)
        c["x"] += quant((np.array([srt[0], srt[-1]]) - lo) / width, UNIT)
        if kind == "uniform" or (kind == "normal" and par["mean"] is None and par["std"] >= width * 0.5):
            c["wide"] = int(n >= 300 and (kind == "uniform" or not whole or par["std"] == 2 * width))
        if not whole and n >= 1000 and kind in ("exp", "uniform"):
            # the dense end of the interval is where the samples start
            nb = 8
            d = np.array([(max(xs) - x if reverse else x - min(xs)) / w for x in xs])
            mid = np.linspace(0, 1, 2 * nb + 1)[1::2]
            c["z"], c["dist"] = (quant(mid / par["std"], 1000), "exp") if kind == "exp" else ([0] * nb, "uniform")
            c["counts"] = [int(x) for x in np.histogram(np.clip(d, 0, 1), bins=np.linspace(0, 1, nb + 1))[0]]
        if whole:
            nb = 16
            if kind == "lognormal":
                edges = np.exp(np.linspace(math.log(lo), math.log(hi), nb + 1))
                mid = np.linspace(math.log(lo), math.log(hi), 2 * nb + 1)[1::2]
                c["z"], c["dist"] = quant((mid - par["mean"]) / par["std"], 1000), "normal"
            else:
                edges = np.linspace(lo, hi, nb + 1)
                mid = (edges[1:] + edges[:-1]) / 2
                if kind == "normal":
                    m = par["mean"] if par["mean"] is not None else (lo + hi) / 2
                    c["z"], c["dist"] = quant((mid - m) / par["std"], 1000), "normal"
                elif kind == "exp":
                    d = (hi - mid) if reverse else (mid - lo)
                    c["z"], c["dist"] = quant(d / width / par["std"], 1000), "exp"
                else:
                    c["z"], c["dist"] = [0] * nb, "uniform"
            c["counts"] = [int(x) for x in np.histogram(np.clip(xs, lo, hi), bins=edges)[0]]
            if kind == "lognormal" or kind == "normal":
                c["z"] = [int(np.clip(z, -20000, 20000)) for z in c["z"]]
    return {"tla": c, "desc": {**desc, "case": {k: v for k, v in c.items() if k != "x"}, "x": c["x"][:8]}}


def centres(chk, rng, kind, i):
    """Very narrow samplers show where their interval was placed."""
    n = 800
    lo, width = rng.choice([-1.0, 0.0, 0.5]), rng.choice([1.0, 4.0])
    if kind == "lognormal":
        lo = 0.5
    w = width * 0.05
    g = np.random.default_rng(chk.npseed("c", i))
    tot = (lo + width, lo) if kind == "exp" and rng.random() < 0.5 else (lo, lo + width)

    def work():
        xs = []
        for _ in range(n):
            kw = dict(total_range=tot, sampling_range=w, rng=g)
            if kind == "normal":
                o = NormalSamplingRange(std=w, **kw)
            elif kind == "uniform":
                o = UniformSamplingRange(**kw)
            elif kind == "lognormal":
                o = LogNormalSamplingRange(mean=math.log(lo + width / 2), sigma=1.5, **kw)
            else:
                o = ExponentialSamplingRange(scale=0.5, **kw)
            xs.append(float(o.sample_parameter()))
        return xs
    xs, err = call(work)
    c = dict(kind=kind, err=err or "", x=[0], lo=0, hi=UNIT, w=-1, last=True, twin=True, wide=0, dist="uniform", z=[], counts=[], out=0)
    if err is None:
        c["x"] = quant((np.array(xs) - lo) / width, UNIT)
        c["z"] = [0] * 8
        # bins of the centres; the samples scatter by half a width around them
        c["counts"] = [int(x) for x in np.histogram(np.clip(xs, lo + w / 2, lo + width - w / 2), bins=np.linspace(lo + w / 2, lo + width - w / 2, 9))[0]]
    return {"tla": c, "desc": {"placement": kind, "total": str(tot), "width": w, "counts": c["counts"]}}


def run(chk):
    chk.model("SamplerMC")
    rng = chk.rng
    cases = []
    kinds = ["normal", "uniform", "lognormal", "exp"]
    for i in range(160 if chk.quick else 1200):
        cases.append(case(chk, rng, kinds[i % 4], i, 1500 if i % 4 == 0 or rng.random() < 0.4 else rng.choice([1, 5, 400])))
        chk.count("samplers")
    for i in range(8 if chk.quick else 40):
        cases.append(centres(chk, rng, kinds[i % 4], i))
        chk.count("placements")
    chk.validate("SamplerTrace", cases)
