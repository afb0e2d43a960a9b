"""Random sensors for sensor scans, their scans, and recorded histories for SensorScanTrace (C15, C16, C17)."""
import copy
import math

import numpy as np

from common import again, call, layout, quant
from check_c14 import BadPeak, build_peak
from simcats import Simulation
from simcats.ideal_csd import IdealCSDInterface
from simcats.sensor import SensorRiseInterface, SensorScanSensorGeneric
from simcats.sensor.barrier_function import BarrierFunctionInterface
from simcats.sensor.deformation import SensorPeakDeformationCircle, SensorPeakDeformationLinear


def ramp(r, mu):
    return np.clip((np.asarray(mu, dtype=float) * 1e6 - r["foot"]) * r["gain"] / 1000, 0, r["cap"]) * 1e-4


class RampBarrier(BarrierFunctionInterface):
    pinch, full = 0.0, 0.0

    def __init__(self, r):
        self.r = dict(r)

    def get_value(self, potential):
        return ramp(self.r, potential)

    @property
    def pinch_off(self):
        return self.pinch

    @property
    def fully_conductive(self):
        return self.full


class RampRise(SensorRiseInterface):
    def __init__(self, r):
        self.r = dict(r)

    @property
    def fully_conductive(self):
        return 0.0

    def sensor_function(self, mu_sens, offset):
        return ramp(self.r, np.asarray(mu_sens) - offset)


class ConstCSD(IdealCSDInterface):
    """An ideal CSD with the same occupation at all voltages."""

    def __init__(self, occ):
        self.occ = np.array(occ) / 10

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=100):
        r = [int(x) for x in np.ravel(resolution)][::-1]
        return np.ones(r + [2]) * self.occ, np.zeros(r)


PYTHAGORAS = [(30, 40, 5), (40, 30, 5), (60, 80, 5), (50, 120, 13), (7, 24, 25), (80, 60, 5), (50, 0, 1), (0, 40, 1)]


def pair(rng, lo, hi):
    return [rng.randrange(lo, hi), rng.choice([0, rng.randrange(lo, hi), rng.randrange(lo, hi)])]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def rand_asg(rng):
    a, b, g = rng.choice(PYTHAGORAS)
    while True:
        r2 = [rng.randrange(5, 80), rng.choice([0, rng.randrange(1, 80), rng.randrange(1, 80)])]
        r3 = [rng.choice([0, rng.randrange(1, 80)]), rng.randrange(5, 80)]
        if rng.random() < 0.2:
            r2, r3 = r3, r2
        if abs(r2[0] * r3[1] - r2[1] * r3[0]) > 50 and not (r2[1] == 0 and r2[0] == 0):
            return [[a, b], r2, r3], g


def rand_bar(rng, lo=-200000, hi=200000):
    return dict(foot=rng.randrange(lo, hi), cap=rng.choice([500, 5000, 12345, 30000]), gain=rng.choice([10, 100, 350, 1000]))


class Model:
    """Mirror of the configuration, only used to aim the test inputs and to compute witnesses."""

    def pot(self, k, o, v, w):
        return 1000 * dot(self.ad[k], o) + dot(self.ag[k], v) + dot(self.asg[k], w) + self.off[k]


def lever(rng, kind, alone=False):
    """(form, value for the specification, object for the sensor)"""
    form = "triple" if alone else rng.choice(["pair", "triple", "triple", "none"])
    lo, hi = (-300, 100) if kind == "ad" else (-50, 300)
    if form == "none":
        return form, 0, None
    if form == "pair":
        v = pair(rng, lo, hi)
        return form, v, np.array(v) / 100
    v = [pair(rng, lo, hi) for _ in range(3)]
    if alone or rng.random() < 0.3:
        # the plunger gates or the electrons do not act on the barriers
        v[1:] = [[0, 0], [0, 0]]
    return form, v, np.array(v) / 100


def expand(form, v):
    return [[0, 0]] * 3 if form == "none" else ([v] * 3 if form == "pair" else v)


def rand_off(rng):
    form = rng.choice(["number", "triple", "triple"])
    if form == "number":
        v = rng.choice([0, rng.randrange(-10 ** 5, 10 ** 5)])
        return form, v, (v * 1e-6 if v or rng.random() < 0.5 else 0)
    v = [rng.randrange(-10 ** 5, 10 ** 5) for _ in range(3)]
    return form, v, np.array(v) * 1e-6


def rand_shift(rng):
    k = rng.randrange(3)
    if k == 0:
        return dict(kind="none")
    if k == 1:
        return dict(kind="linear", k=rng.choice([1, -1]) * rng.randrange(20, 2500))
    return dict(kind="circle", r=rng.choice([1, -1]) * rng.randrange(20, 400))


def build_shift(q, norm):
    if q["kind"] == "linear":
        return SensorPeakDeformationLinear(angle=math.atan2(1000, q["k"]) - (math.pi if q["k"] < 0 and q["k"] % 2 else 0))
    return SensorPeakDeformationCircle(radius=q["r"] * 1e-4 * norm / 100)


LARGE = [(0, 130), (0, 270), (0, 520), (20, 25), (3, 130), (140, 2), (26, 21)]


class Rig:
    """A sensor and its recorded history."""

    def __init__(self, chk, rng, deformed=False, rise=False, lin=False, alone=False):
        self.chk, self.rng, self.ev, self.owned = chk, rng, [], []
        m = self.m = Model()
        m.asg, self.g = rand_asg(rng)
        self.norm = math.isqrt(dot(m.asg[0], m.asg[0]))
        self.deformed, self.lin = deformed, lin
        fad, vad, oad = lever(rng, "ad", alone)
        fag, vag, oag = lever(rng, "ag", alone)
        foff, voff, ooff = rand_off(rng)
        m.ad, m.ag, m.off = expand(fad, vad), expand(fag, vag), ([voff] * 3 if foff == "number" else voff)
        kw = {}
        if fad != "none" or rng.random() < 0.5:
            kw["alpha_dot"] = oad
        if fag != "none" or rng.random() < 0.5:
            kw["alpha_gate"] = oag
        if not (foff == "number" and voff == 0 and rng.random() < 0.5):
            kw["offset_mu_sens"] = ooff
        for a in (oad, oag, ooff):
            if isinstance(a, np.ndarray):
                self.owned.append(a)
        asg = np.array(m.asg) / 100
        self.owned.append(asg)
        # where the scans look at
        o, v = [rng.randrange(0, 60), rng.randrange(0, 60)], [rng.randrange(-2000, 2000), rng.randrange(-2000, 2000)]
        self.center = [self.g * rng.randrange(-150, 150), self.g * rng.randrange(-150, 150)]
        self.o, self.v = o, v
        mu = m.pot(0, o, v, self.center)
        n = rng.choice([1, 1, 2, 3, 4])
        self.peaks = [] if lin else [dict(kind=rng.choice(["gauss", "lorentz"]), mu0=mu + rng.randrange(-30000, 30000), width=rng.choice([2, 10, 40, 200]),
                                          height=rng.randrange(100, 1500), offset=rng.choice([0, 0, rng.randrange(0, 100)])) for _ in range(n)]
        if rng.random() < 0.5:
            self.peaks.sort(key=lambda p: p["mu0"])
        objs = [build_peak(p) for p in self.peaks]
        self.owned += objs + [objs]
        self.shifts = [rand_shift(rng) for _ in objs] if deformed else []
        if deformed and all(q["kind"] == "none" for q in self.shifts):
            self.shifts[0] = dict(kind="linear", k=700)
        form = rng.choice(["single", "pair"])
        b = [rand_bar(rng), rand_bar(rng)]
        for i in (1, 2):
            if rng.random() < 0.75:
                # (partially) open around the centre of the scans
                b[i - 1]["foot"] = -rng.randrange(200, 1500) * b[i - 1]["cap"] // b[i - 1]["gain"]
            b[i - 1]["foot"] += m.pot(i, o, v, self.center)
        if form == "single":
            b[1] = b[0]
        bo = [RampBarrier(x) for x in b]
        if form == "single":
            self.owned.append(bo[0])
        self.rise = dict(foot=rng.randrange(-20000, 20000), cap=rng.choice([800, 5000, 20000]), gain=rng.choice([50, 300, 1000])) if rise else None
        if rise:
            kw["final_rise"] = RampRise(self.rise)
        elif rng.random() < 0.5:
            kw["final_rise"] = None
        if deformed:
            kw["sensor_peak_deformations"] = {i: build_shift(q, self.norm) for i, q in enumerate(self.shifts) if q["kind"] != "none"}
        elif rng.random() < 0.5:
            kw["sensor_peak_deformations"] = rng.choice([{}, None])
        self.s = SensorScanSensorGeneric(barrier_functions=bo[0] if form == "single" else rng.choice([tuple, list])(bo),
                                         sensor_peak_function=None if lin else (objs[0] if len(objs) == 1 and rng.random() < 0.5 else objs),
                                         alpha_sensor_gate=asg, **kw)
        self.set("ad", fad, vad), self.set("ag", fag, vag), self.set("asg", "triple", m.asg), self.set("off", foff, voff)
        self.set("lin" if lin else "peaks", "", 0 if lin else [dict(p) for p in self.peaks])
        self.set("bars", form, b[0] if form == "single" else b)
        if rise:
            self.set("rise", "", self.rise)
        if deformed:
            self.set("shifts", "", self.shifts)
        self.bars = b

    def set(self, what, form, value, ok=True, raised=""):
        self.ev.append(dict(ev="set", what=what, form=form, value=value, ok=ok, raised=raised))

    # ------------------------------------------------------------------ configuration
    def setting(self, k=None):
        rng, m, s = self.rng, self.m, self.s
        k = rng.randrange(10) if k is None else k
        if k in (0, 1):
            w = "ad" if k == 0 else "ag"
            form, v, o = lever(rng, w)
            _, err = call(setattr, s, "alpha_dot" if w == "ad" else "alpha_gate", o)
            self.set(w, form, v, True, err or "")
            setattr(m, w, expand(form, v))
            if o is not None:
                self.owned.append(o)
        elif k == 2:
            form, v, o = rand_off(rng)
            if rng.random() < 0.4:
                # of the sensor dot only
                form, v = "triple", [m.off[0] + rng.randrange(-5000, 5000), m.off[1], m.off[2]]
                o = np.array(v) * 1e-6
            _, err = call(setattr, s, "offset_mu_sens", o)
            self.set("off", form, v, True, err or "")
            m.off = [v] * 3 if form == "number" else v
            if isinstance(o, np.ndarray):
                self.owned.append(o)
        elif k == 3 and not self.deformed:
            m.asg, self.g = rand_asg(rng)
            self.norm = math.isqrt(dot(m.asg[0], m.asg[0]))
            a = np.array(m.asg) / 100
            self.owned.append(a)
            _, err = call(setattr, s, "alpha_sensor_gate", a)
            self.set("asg", "triple", m.asg, True, err or "")
        elif k == 4:
            form = rng.choice(["single", "pair"])
            b = [rand_bar(rng), rand_bar(rng)]
            if form == "single":
                b[1] = b[0]
            bo = [RampBarrier(x) for x in b]
            if form == "single":
                self.owned.append(bo[0])
            _, err = call(setattr, s, "barrier_functions", bo[0] if form == "single" else rng.choice([tuple, list])(bo))
            self.set("bars", form, b[0] if form == "single" else b, True, err or "")
            self.bars = b
        elif k == 5:
            what, attr, v = rng.choice([
                ("ad", "alpha_dot", [1, 2]), ("ad", "alpha_dot", np.zeros((2, 3))), ("ag", "alpha_gate", np.zeros((3,))), ("ag", "alpha_gate", 0.3),
                ("ag", "alpha_gate", np.zeros((1, 2))), ("asg", "alpha_sensor_gate", None), ("asg", "alpha_sensor_gate", np.array([1., 2.])),
                ("asg", "alpha_sensor_gate", [[1, 2], [3, 4], [5, 6]]), ("off", "offset_mu_sens", np.zeros(2)), ("off", "offset_mu_sens", [0, 0, 0]),
                ("off", "offset_mu_sens", None), ("off", "offset_mu_sens", "0"), ("bars", "barrier_functions", None), ("bars", "barrier_functions", [RampBarrier(rand_bar(rng))]),
                ("bars", "barrier_functions", (RampBarrier(rand_bar(rng)), 3)), ("bars", "barrier_functions", [RampBarrier(rand_bar(rng))] * 3),
                ("peaks", "sensor_peak_function", BadPeak()), ("peaks", "sensor_peak_function", [BadPeak()]), ("rise", "final_rise", 3), ("rise", "final_rise", RampBarrier(rand_bar(rng)))])
            _, err = call(setattr, s, attr, v)
            self.set(what, "", 0, False, err or "")
        elif k == 6:
            for o in self.owned:
                if isinstance(o, np.ndarray):
                    o += 7
                elif isinstance(o, list):
                    if o:
                        o.pop()
                elif isinstance(o, RampBarrier):
                    o.r = dict(foot=0, cap=1, gain=1)
                else:
                    o.mu0, o.height = o.mu0 + 1e-3, 9.0
            self.ev.append(dict(ev="caller"))
        elif k == 8:
            # other electrons or plunger voltages, and sometimes the same scan as before
            self.o = [max(0, x + rng.choice([0, 1, -1, 10])) for x in self.o]
        elif k == 9:
            self.v = [x + rng.choice([0, 1, -1, 30]) for x in self.v]
        elif k == 7 and not self.deformed and self.peaks:
            self.peaks = [dict(p, height=rng.randrange(50, 900)) for p in self.peaks]
            objs = [build_peak(p) for p in self.peaks]
            self.owned += objs + [objs]
            _, err = call(setattr, s, "sensor_peak_function", objs)
            self.set("peaks", "", [dict(p) for p in self.peaks], True, err or "")

    # ------------------------------------------------------------------ scans
    def scan(self, kind, arrays=False, shape=None, small=False):
        """Records the potentials of a scan. kind: sensor, csd, both."""
        rng, m, g = self.rng, self.m, self.g
        rows, cols = shape or (rng.choice([0, 2, 3, 4]), rng.choice([2, 3, 5, 9]))
        if shape is None and rows == 0 and rng.random() < 0.15:
            cols = 1
        n = max(rows, 1) * cols
        span = rng.choice([1, 2, 4]) if small else rng.choice([1, 3, 40])
        w, v = [], []
        for i, cnt in ((0, cols), (1, rows or cols)):
            step = 0 if rows == 0 and rng.random() < 0.3 else rng.choice([1, -1]) * g * (rng.randrange(1, 4) * span if n <= 100 else 1)
            w.append([self.center[i] - (step * (cnt - 1) // 2) // g * g + g * rng.randrange(-3, 4), step])
            v.append([self.v[i], 0 if rows == 0 and rng.random() < 0.3 else rng.choice([1, -1]) * rng.randrange(1, 60 if n <= 100 else 4)])
        if cols == 1:
            # one pixel: nothing is swept
            v, w = [[x[0], 0] for x in v], [[x[0], 0] for x in w]
        swept_v, swept_w = kind in ("csd", "both"), kind in ("sensor", "both")
        if not swept_v:
            v = [[x[0], 0] for x in v]
            if rng.random() < 0.15:
                v = [[0, 0], [0, 0]]
        if not swept_w:
            w = [[x[0], 0] for x in w]
        if kind == "both":
            for x in v + w:
                x[1] = x[1] or 3
        elif kind == "sensor" and rng.random() < 0.7:
            occ = [self.o] * n
        else:
            occ = [[rng.randrange(0, 60), rng.randrange(0, 60)] for _ in range(n)]
        if kind == "both":
            occ = [self.o] * n
        if self.rise and kind == "csd":
            # near the electrons of the first pixel
            occ = [[max(0, x + rng.randrange(-6, 7)) for x in self.o] for _ in range(n)] if rng.random() < 0.7 else [self.o] * n
        elif self.deformed or self.rise or arrays:
            occ = [self.o] * n
        lim = []
        for x, cnt, swept in ((v[0], cols, swept_v), (v[1], rows or cols, swept_v), (w[0], cols, swept_w), (w[1], rows or cols, swept_w)):
            a, b = x[0] / 10000, (x[0] + x[1] * (cnt - 1)) / 10000
            if swept and (x[1] or arrays or rng.random() < 0.5):
                lim.append(np.array([a, b]) if kind == "both" else again(rng, f"gate {len(lim)}", np.array([a, b])))
            elif x[0] == 0:
                lim.append(rng.choice([None, 0, 0.0]))
            else:
                lim.append(rng.choice([float, np.float64])(a))
        if kind == "both" and rng.random() < 0.5:
            # one gate of each kind suffices
            lim[rng.randrange(2)] = 0.1
            lim[2 + rng.randrange(2)] = 0.2
        a = layout(rng, np.array(occ).reshape((rows, cols, 2) if rows else (cols, 2)) / 10, None if kind == "both" else "occ")
        before = [a.copy(), copy.deepcopy(lim)]
        out, err = call(self.s.sensor_potential, occupations=a, volt_limits_g1=lim[0], volt_limits_g2=lim[1], volt_limits_sensor_g1=lim[2], volt_limits_sensor_g2=lim[3])
        e = dict(ev="pot", rows=rows, cols=cols, v1=v[0], v2=v[1], w1=w[0], w2=w[1], both=kind == "both", occ=occ, out=[], raised=err or "", same=True)
        if err is None and np.shape(out) != (3,) + a.shape[:-1]:
            e["raised"] = "shape"
        elif err is None:
            e["out"] = [quant(np.ravel(x), 1e6) for x in out]
            e["same"] = bool(np.array_equal(a, before[0])) and all(np.array_equal(x, y) for x, y in zip(lim, before[1]) if x is not None)
        self.ev.append(e)
        if kind != "both":
            self.last, self.lim = e, lim
            self.pots = out if err is None and e["raised"] == "" else None
            self.points()
        self.chk.count("scans")

    def points(self):
        """Chooses the pinch-off and the fully conductive point and gives the barriers the thresholds that belong to them."""
        rng, g = self.rng, self.g
        if hasattr(self, "middle") and rng.random() < 0.5:
            return self.thresholds()
        self.middle = [self.center[0] + g * rng.randrange(-4, 5), self.center[1] + g * rng.randrange(-4, 5)]
        self.point = [self.middle[0] + g * rng.randrange(0, 12), self.middle[1] + g * rng.randrange(0, 12)]
        self.thresholds()

    def thresholds(self):
        e = self.last
        o, v = e["occ"][0], [e["v1"][0], e["v2"][0]]
        self.pinch = [self.m.pot(i, o, v, self.middle) for i in (1, 2)]
        self.full = [self.m.pot(i, o, v, self.point) for i in (1, 2)]
        for b, p, f in zip(self.s.barrier_functions, self.pinch, self.full):
            b.pinch, b.full = p * 1e-6, f * 1e-6

    def near_rise(self):
        """Moves the final rise to the potential of a pixel of the last scan."""
        rng, e = self.rng, self.last
        if self.pots is None:
            return
        k = rng.randrange(len(e["occ"]))
        i, j = (k, k) if e["rows"] == 0 else (k // e["cols"], k % e["cols"])
        v0, v = [e["v1"][0], e["v2"][0]], [e["v1"][0] + e["v1"][1] * j, e["v2"][0] + e["v2"][1] * i]
        grown = [0, 0, 0] if v == v0 else [self.m.pot(x, e["occ"][k], v, [0, 0]) - self.m.pot(x, e["occ"][0], v0, [0, 0]) for x in range(3)]
        a = np.array(self.m.asg, dtype=float)
        full = self.m.pot(0, e["occ"][0], v0, self.point) + grown[0] - a[0] @ np.linalg.solve(a[1:], grown[1:])
        foot = int(e["out"][0][k] - full) - rng.randrange(1 + 1000 * self.rise["cap"] // self.rise["gain"])
        if abs(foot) > 10 ** 8:
            return
        self.rise = dict(self.rise, foot=foot)
        self.s.final_rise = RampRise(self.rise)
        self.set("rise", "", self.rise)

    def aim(self):
        """Moves the peaks to the potentials of the last scan and chooses the thresholds so that its pixels lie in all areas."""
        rng, e, g = self.rng, self.last, self.g
        mu = e["out"][0]
        lo, hi = min(mu), max(mu)
        step = max((hi - lo) // max(e["cols"], 1), 1)
        if rng.random() < 0.8 and not self.deformed:
            n = rng.choice([0, 1, 2, 3, 5])
            self.peaks = [dict(kind=rng.choice(["gauss", "lorentz"]), mu0=rng.choice([rng.choice(mu) + rng.randrange(-step, step + 1), rng.randrange(lo - step, hi + step + 1)]),
                               width=10, height=500, offset=0) for _ in range(n)]
            if n and len(e["occ"]) < 60 and rng.random() < 0.03:
                # many peaks below those of the scan
                self.peaks = [dict(self.peaks[0], mu0=lo - (k + 2) * step) for k in range(rng.randrange(250, 262))] + self.peaks
            if rng.random() < 0.5:
                self.peaks.sort(key=lambda p: p["mu0"])
            objs = [build_peak(p) for p in self.peaks]
            if n == 0 and rng.random() < 0.5:
                self.s.sensor_peak_function = None
                self.set("lin", "", 0)
            else:
                self.s.sensor_peak_function = objs
                self.set("peaks", "", [dict(p) for p in self.peaks])
        # a pixel of the scan becomes (nearly) the pinch-off point, another one the fully conductive point
        n = len(e["occ"])
        place = []
        for _ in range(2):
            k = rng.randrange(n)
            i, j = (k, k) if e["rows"] == 0 else (k // e["cols"], k % e["cols"])
            place.append([e["w1"][0] + e["w1"][1] * j, e["w2"][0] + e["w2"][1] * i])
        if rng.random() < 0.7:
            place.sort(key=lambda w: dot(self.m.asg[0], w))
        if rng.random() < 0.3:
            place[0] = [min(e["w1"][0], e["w1"][0] + e["w1"][1] * (e["cols"] - 1)) - 7 * g, min(e["w2"][0], e["w2"][0] + e["w2"][1] * ((e["rows"] or e["cols"]) - 1)) - 7 * g]
        self.middle = [place[0][0] + g * rng.randrange(-1, 2), place[0][1] + g * rng.randrange(-1, 2)]
        self.point = [place[1][0] + g * rng.randrange(-1, 6), place[1][1] + g * rng.randrange(-1, 6)]
        self.thresholds()

    def response(self, own):
        """own: potentials chosen freely, else those of the scan."""
        rng, e = self.rng, self.last
        n = len(e["occ"])
        if self.pots is None:
            return
        if own:
            mu = [[], [], []]
            for _ in range(n):
                if self.lin:
                    mu[0].append(rng.choice([0, rng.randrange(0, 10 ** 6)]))
                elif rng.random() < 0.8:
                    p = rng.choice(self.peaks)
                    mu[0].append(int(p["mu0"] + rng.choice([0, 1, -1]) * rng.choice([0.3, 1, 2.5, 10]) * rng.random() * p["width"] * 100))
                else:
                    mu[0].append(rng.randrange(-10 ** 6, 10 ** 6))
                for i in (0, 1):
                    b = self.bars[i]
                    mu[i + 1].append(b["foot"] + rng.choice([-1, 1, 1, 1]) * rng.randrange(0, 1 + 1300 * b["cap"] // b["gain"]))
            shape = self.pots.shape
            a = layout(rng, np.array(mu).reshape(shape) * 1e-6, "mu")
        else:
            mu, a = e["out"], np.array(self.pots)
            if self.lin and (min(mu[0]) < 0 or max(mu[0]) > 2 * 10 ** 6):
                return
        before = a.copy()
        out, err = call(self.s.sensor_response, a)
        r = dict(ev="resp", mu=mu, point=self.point, middle=self.middle, pinch=self.pinch, full=self.full, out=[], err=err or "", same=True)
        if err is None:
            if np.shape(out) != a.shape[1:]:
                r["err"] = "shape"
            else:
                r["out"], r["same"] = quant(np.ravel(out), 1e4), bool(np.array_equal(a, before))
        self.ev.append(r)
        self.chk.count("responses")

    def labels(self):
        if self.pots is None:
            return
        a = np.array(self.pots)
        before = [a.copy(), copy.deepcopy(self.lim)]
        out, err = call(self.s.get_sensor_scan_labels, volt_limits_g1=self.lim[0], volt_limits_g2=self.lim[1], volt_limits_sensor_g1=self.lim[2],
                        volt_limits_sensor_g2=self.lim[3], potential=a)
        self.label_event(out, err, bool(np.array_equal(a, before[0])) and all(np.array_equal(x, y) for x, y in zip(self.lim, before[1]) if x is not None))

    def label_event(self, out, err, same):
        r = dict(ev="labels", pot=self.last["out"], cols=self.last["cols"], pinch=self.pinch, full=self.full, point=self.point, middle=self.middle,
                 cond=[], coul=[], err=err or "", same=same)
        if err is None:
            shape = self.pots.shape[1:]
            if len(out) != 2 or any(np.shape(x) != shape or not np.issubdtype(np.asarray(x).dtype, np.integer) for x in out):
                r["err"] = "shape"
            else:
                r["cond"], r["coul"] = [[int(v) for v in np.ravel(x)] for x in out]
        self.ev.append(r)
        self.chk.count("labels")
        self.chk.count("marked pixels", sum(1 for x in r["coul"] if x))
        for a in (0, 1, 2):
            self.chk.count(f"pixels of area {a}", r["cond"].count(a))

    def simulate(self):
        """A whole sensor scan of a simulation with this sensor. Returns its image."""
        rng, e = self.rng, self.last
        o, v = e["occ"][0], [e["v1"][0], e["v2"][0]]
        if o == [0, 0] and v == [0, 0]:
            csd, volts = None, [None, None]
        else:
            csd, volts = ConstCSD(o), [x / 10000 for x in v]
        sim = Simulation(volt_limits_g1=None, volt_limits_g2=None, ideal_csd_config=csd, sensor=self.s)
        res = np.array([e["cols"], e["rows"]]) if e["rows"] else rng.choice([e["cols"], np.array([e["cols"]])])
        out, err = call(sim.measure_sensor_scan, self.lim[2], self.lim[3], volts[0], volts[1], res)
        self.label_event(out[1:3] if err is None else None, err, True)
        return out[0] if err is None else None

    def image_event(self, img):
        mu = self.last["out"]
        r = dict(ev="resp", mu=mu, point=self.point, middle=self.middle, pinch=self.pinch, full=self.full, out=[], err="", same=True)
        if img is None or np.shape(img) != self.pots.shape[1:]:
            r["err"] = "no image"
        else:
            r["out"] = quant(np.ravel(img), 1e4)
        self.ev.append(r)

    def case(self):
        keep = ("ev", "what", "form", "value", "rows", "cols", "w1", "w2", "raised", "err")
        return {"tla": self.ev, "desc": {"asg": self.m.asg, "peaks": self.peaks, "shifts": self.shifts, "rise": self.rise,
                                         "events": [{k: x for k, x in e.items() if k in keep} for e in self.ev][-8:]}}
