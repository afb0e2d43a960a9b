"""C11 white and pink noise."""
import numpy as np

from common import call, layout, quant
from rngs import CountingSampler
from simcats.distortions import SensorPotentialPinkNoise, SensorResponseWhiteNoise

V = [-0.2, -0.1]


def make(kind, sigma, fmin, seed):
    g = np.random.default_rng(seed)
    return (SensorResponseWhiteNoise(sigma=sigma, rng=g) if kind == "white" else SensorPotentialPinkNoise(sigma=sigma, fmin=fmin, rng=g))


def noise(obj, data, sigma, scale=100):
    """Noise in 1/scale of sigma (sigma 0: in 1e-9)."""
    base = np.array(data, copy=True)
    out, err = call(obj.noise_function, data, V, V)
    if err is not None:
        return [], err, True
    if np.shape(out) != base.shape:
        return [], "shape", True
    same = bool(np.array_equal(base, data))
    d = np.asarray(out, dtype=float) - base
    # guard against values TLC could not square
    q = np.array(quant(d / sigma if sigma else d * 1e7, scale))
    return [int(x) for x in np.ravel(q)], "", same


def run(chk):
    chk.model("NoiseMC")
    rng = chk.rng
    cases = []
    for i in range(200 if chk.quick else 3000):
        kind = rng.choice(["white", "pink"])
        ev = []
        sig0 = rng.choice([1e-3, 0.05, 1.0, 7.5]) * (0.5 + rng.random())
        fmin = rng.choice([0, 0, 0.1, 0.03])
        seed = chk.npseed(i)
        a, b = make(kind, sig0, fmin, seed), make(kind, sig0, fmin, seed)
        for _ in range(rng.randrange(1, 4)):
            shape = rng.choice([(1,), (2,), (9,), (40,), (3, 5), (2, 2), (6, 4)])
            sig = 0.0 if rng.random() < 0.06 else rng.choice([1e-3, 0.05, 1.0, 7.5]) * (0.5 + rng.random())
            smp = rng.random() < 0.5
            if smp:
                sm = CountingSampler([sig])
                a.sigma = sm
            else:
                sm = None
                a.sigma = sig
            b.sigma = sig * 3 if sig else 0.0
            if rng.random() < 0.3:
                data = np.array([rng.randrange(-3, 4) for _ in range(int(np.prod(shape)))]).reshape(shape)
            else:
                data = np.array([rng.uniform(-1, 1) for _ in range(int(np.prod(shape)))]).reshape(shape) * max(sig, 1e-3)
            data = layout(rng, data)
            q, err, same = noise(a, data, sig)
            tw, err2, _ = noise(b, np.zeros(shape), sig * 3)
            lat = a.latest_sigma
            ev.append(dict(ev="call", kind=kind, pixels=int(np.prod(shape)), zero=sig == 0, q=q, twin=tw, same=same, err=err or err2,
                           sampled=smp, draws=sm.n if smp else 0, latest=isinstance(lat, (int, float)) and abs(lat - sig) <= 1e-12 * (1 + abs(sig))))
            chk.count("calls")
        cases.append({"tla": ev})
    # statistics
    n_stat = 8 if chk.quick else 60
    for i in range(n_stat):
        shape = rng.choice([(2000,), (20, 100), (100, 20)])
        sig = rng.choice([0.002, 0.7, 3.0])
        o = make("white", sig, 0, chk.npseed("w", i))
        q, err, same = noise(o, np.zeros(shape) if rng.random() < 0.5 else np.ones(shape) * sig, sig)
        q2, err2, same = noise(o, np.zeros(shape), sig)
        q, err = q + q2, err or err2
        if err:
            chk.violation("raised an exception", err)
            continue
        cases.append({"tla": [dict(ev="stat", kind="white", fmin=0, lags=[len(q2)] + ([shape[1]] if len(shape) == 2 else []), q=q, rs=[])],
                      "desc": {"white noise": shape, "sigma": sig, "head": q[:20]}})
        chk.count("white_samples", len(q))
    for i in range(6 if chk.quick else 36):
        fmin = [0, 0.0625, 0.5][i % 3]
        shape = rng.choice([(1024,), (32, 32), (16, 64)])
        sig = rng.choice([0.002, 0.7, 3.0])
        o = make("pink", sig, fmin, chk.npseed("p", i))
        rs = []
        for _ in range(60):
            q, err, same = noise(o, np.zeros(shape), sig)
            if err:
                chk.violation("raised an exception", err)
                break
            rs.append(q)
        else:
            cases.append({"tla": [dict(ev="stat", kind="pink", fmin=round(fmin * 10000), lags=[], q=[], rs=rs)],
                          "desc": {"pink noise": shape, "sigma": sig, "fmin": fmin, "head": rs[0][:20]}})
            chk.count("pink_samples", 60 * 1024)
    chk.validate("NoiseTrace", cases)
