"""Observation of dot jumps: ideal data that encode the voltages of every pixel, so the origin of all data is visible."""
import random
import warnings

import numpy as np

from common import BAD, again, layout
from simcats.ideal_csd import IdealCSDInterface
from stubs import shape_of


def lin_csd(volt_limits_g1, volt_limits_g2, resolution):
    shp = shape_of(resolution)
    v1 = np.linspace(volt_limits_g1[0], volt_limits_g1[1], shp[-1])
    v2 = np.linspace(volt_limits_g2[0], volt_limits_g2[1], shp[0])
    if len(shp) == 2:
        v1, v2 = np.meshgrid(v1, v2)
    # both values of a pixel depend on both voltages
    return np.stack((v1 + 0.37 * v2, 0.29 * v1 - v2), axis=-1), 3 * v1 + 7 * v2


def voltages(occ):
    """The voltages that the data of lin_csd stand for."""
    a, b = np.asarray(occ)[..., 0], np.asarray(occ)[..., 1]
    d = 1 + 0.37 * 0.29
    return np.stack(((a + 0.37 * b) / d, (0.29 * a - b) / d), axis=-1)


class LinCSD(IdealCSDInterface):
    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=np.array([100, 100])):
        return lin_csd(volt_limits_g1, volt_limits_g2, resolution)


def decode(occ, r1, r2, axis, other=True):
    """Shift (in pixels along the jump gate) of every pixel: matrix [line][pixel from low to high voltage]."""
    occ = voltages(occ)
    rj, ro = (r1, r2) if axis == 1 else (r2, r1)
    cj, co = (0, 1) if axis == 1 else (1, 0)
    lo, hi = min(rj), max(rj)
    eps = 1e-7 * max(hi - lo, 1e-6)
    if occ.ndim == 3:
        obs, oth = occ[..., cj], occ[..., co]
        if axis == 0:
            obs, oth = obs.T, oth.T
        n = obs.shape[1]
        step = (hi - lo) / n
        want_o = np.linspace(ro[0], ro[1], obs.shape[0])
        if rj[0] > rj[1]:
            obs, oth = obs[:, ::-1], oth[:, ::-1]
        j = np.arange(n)[None, :]
        inside = obs >= lo - eps
        pitch = (hi - lo) / (n - 1) if n > 1 else 1.0
        idx = np.rint((obs - lo) / pitch)
        m = np.rint((lo - obs) / step)
        k = np.where(inside, j - idx, j + m)
        ok = np.where(inside, np.abs(lo + idx * pitch - obs) < eps, np.abs(lo - m * step - obs) < eps)
        if other:
            ok &= np.abs(oth - want_o[:, None]) < 1e-9
    else:
        n = occ.shape[0]
        obs, oth = occ[:, cj], occ[:, co]
        base, want_o = np.linspace(rj[0], rj[1], n), np.linspace(ro[0], ro[1], n)
        if rj[0] > rj[1]:
            obs, oth, base, want_o = obs[::-1], oth[::-1], base[::-1], want_o[::-1]
        step = (hi - lo) / n if hi > lo else 1.0
        k = np.rint((base - obs) / step)
        ok = np.abs(base - k * step - obs) < eps
        if other:
            ok &= np.abs(oth - want_o) < 1e-9
        k, ok = k[None, :], ok[None, :]
    k = np.where(ok & np.isfinite(k), np.where(np.isfinite(k), k, 0), BAD)
    return k.astype(np.int64).tolist()


def lead_ok(occ, lead):
    """Lead transitions stem from the same pixels as the occupations."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        occ = voltages(occ)
        return np.abs(np.asarray(lead) - (3 * occ[..., 0] + 7 * occ[..., 1])) < 1e-9


def events(rng_log):
    """p and lambda of the draws in a log of RecGen"""
    p = [int(round(x[1] * 10000)) for x in rng_log if x[0] == "geometric"]
    lam = [int(round(x[1] * 1000)) for x in rng_log if x[0] == "poisson"]
    return sorted(set(p)), sorted(set(lam))


LAYOUTS = random.Random(5)


def call_jump(dj, gen, r1, r2, res, freeze, with_gen=True, with_lead=True, readonly=False):
    """One call of a dot jump object on ideal data of a window. Returns the event without its parameters."""
    occ, lead = lin_csd(r1, r2, res)
    occ, lead = (layout(LAYOUTS, occ), layout(LAYOUTS, lead)) if freeze else (layout(LAYOUTS, occ, "occ"), layout(LAYOUTS, lead, "lead"))
    axis = dj.axis
    st = gen.state()
    gen.take()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lim = (np.array(r1), np.array(r2)) if freeze else (again(LAYOUTS, "g1", np.array(r1)), again(LAYOUTS, "g2", np.array(r2)))
        o, l = dj.noise_function(occ, lead if with_lead else None, *lim,
                                 lin_csd if with_gen else None, freeze=freeze)
    log = gen.take()
    p, lamq = events(log)
    k = decode(o, r1, r2, axis)
    e = {"ev": "frozen" if freeze else "measure", "k": k, "lead": [], "p": p, "lamq": lamq,
         "still": bool(gen.state() == st), "gen": with_gen, "act": bool(dj.activated),
         "fixed": bool((r1 if axis == 1 else r2)[0] == (r1 if axis == 1 else r2)[1])}
    if with_lead:
        ok = np.ones(np.shape(k), bool)
        lo_ = lead_ok(o, l)
        m = lo_ if lo_.ndim == 2 else lo_[None, :]
        if m.ndim == 2 and np.ndim(o) == 3 and axis == 0:
            m = m.T
        rj = r1 if axis == 1 else r2
        if rj[0] > rj[1]:
            m = m[:, ::-1]
        ok &= m
        e["lead"] = [[kk if g else BAD - 1 for kk, g in zip(a, b)] for a, b in zip(k, ok.tolist())]
    return e
