"""Stub implementations of the public interfaces of SimCATS. They record every call they get (arguments and digests of
the arrays) in a shared recorder, which deep copies of the stubs keep on using."""
import zlib

import numpy as np

from simcats.distortions import (OccupationDistortionInterface, SensorPotentialDistortionInterface,
                                 SensorResponseDistortionInterface)
from simcats.ideal_csd import IdealCSDInterface
from simcats.sensor import SensorInterface, SensorScanSensorInterface


def digest(a):
    """30 bit digest of the values (not the memory layout) of an array."""
    if a is None:
        return -1
    a = np.ascontiguousarray(np.asarray(a, dtype=float) + 0.0)
    return zlib.crc32(repr(a.shape).encode() + a.tobytes()) & 0x3FFFFFFF


class Recorder:
    def __init__(self):
        self.events = []
        self.on = True
        self.tick = 0

    def __deepcopy__(self, memo):
        return self

    def add(self, **kw):
        if self.on:
            self.events.append(kw)

    def take(self):
        e, self.events = self.events, []
        return e

    def next(self):
        self.tick += 1
        return self.tick


def volt(x):
    """Argument that is a voltage/limits (or None) -> list of integers in units of 1e-6 V."""
    if x is None:
        return []
    a = np.ravel(np.asarray(x, dtype=float))
    return [int(v) for v in np.rint(a * 1e6)]


def resol(r):
    return [int(v) for v in np.ravel(r)]


def shape_of(res):
    r = resol(res)
    return (r[0],) if len(r) == 1 else (r[1], r[0])


class StubCSD(IdealCSDInterface):
    """Ideal data that encodes the voltages of the pixels and is different for different requests."""

    def __init__(self, rec, ident=0):
        self.rec, self.ident = rec, ident

    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution=np.array([100, 100])):
        shp = shape_of(resolution)
        v1 = np.linspace(volt_limits_g1[0], volt_limits_g1[1], shp[-1])
        v2 = np.linspace(volt_limits_g2[0], volt_limits_g2[1], shp[0])
        if len(shp) == 2:
            v1, v2 = np.meshgrid(v1, v2)
        occ = np.stack((v1 * 1000 + self.ident, v2 * 1000 + 7 + self.ident), axis=-1)
        lead = np.floor(np.abs(v1 + 2 * v2) * 1000) % 5 + self.ident
        self.rec.add(ev="csd", id=self.ident, v1=volt(volt_limits_g1), v2=volt(volt_limits_g2), res=resol(resolution),
                     occ=digest(occ), lead=digest(lead))
        return occ, lead


class StubSensor(SensorInterface):
    scan = False

    def __init__(self, rec, ident=0, potentials=1):
        self.rec, self.ident, self.potentials = rec, ident, potentials

    def _pot(self, occupations):
        p = occupations[..., 0] * 3 + occupations[..., 1] * 5 + self.ident
        if self.potentials > 1:
            p = np.array([p * (k + 1) + k for k in range(self.potentials)])
        return p

    def _parts(self, p):
        return [digest(x) for x in p] if self.potentials > 1 else [digest(p)]

    def sensor_potential(self, occupations, volt_limits_g1, volt_limits_g2):
        p = self._pot(occupations)
        self.rec.add(ev="pot", id=self.ident, v1=volt(volt_limits_g1), v2=volt(volt_limits_g2), s1=[], s2=[],
                     inp=digest(occupations), out=self._parts(p))
        return p

    def sensor_response(self, mu_sens):
        p = np.asarray(mu_sens)
        r = np.sum(p, axis=0) * 2 + 1 if self.potentials > 1 else p * 2 + 1
        self.rec.add(ev="resp", id=self.ident, inp=self._parts(p), out=digest(r))
        return r


class StubScanSensor(SensorScanSensorInterface):
    scan = True

    def __init__(self, rec, ident=0, potentials=3):
        self.rec, self.ident, self.potentials = rec, ident, potentials

    _pot = StubSensor._pot
    _parts = StubSensor._parts
    sensor_response = StubSensor.sensor_response

    def sensor_potential(self, occupations, volt_limits_g1=None, volt_limits_g2=None, volt_limits_sensor_g1=None,
                         volt_limits_sensor_g2=None):
        p = self._pot(occupations)
        self.rec.add(ev="pot", id=self.ident, v1=volt(volt_limits_g1), v2=volt(volt_limits_g2),
                     s1=volt(volt_limits_sensor_g1), s2=volt(volt_limits_sensor_g2),
                     inp=digest(occupations), out=self._parts(p))
        return p

    def get_sensor_scan_labels(self, volt_limits_g1, volt_limits_g2, volt_limits_sensor_g1, volt_limits_sensor_g2,
                               potential):
        p = np.asarray(potential)
        q = p[0] if self.potentials > 1 else p
        a, b = np.floor(np.abs(q)) % 3, np.floor(np.abs(q)) % 7
        self.rec.add(ev="labels", id=self.ident, v1=volt(volt_limits_g1), v2=volt(volt_limits_g2),
                     s1=volt(volt_limits_sensor_g1), s2=volt(volt_limits_sensor_g2), inp=self._parts(p),
                     out=[digest(a), digest(b)])
        return a, b


class StubOcc(OccupationDistortionInterface):
    """Occupation distortion. mode: "inplace" or "copy"; extra: list of (range 1, range 2, resolution) for which it asks
    for additional data (also while it is frozen if `nested`); the data it gets is recorded."""

    def __init__(self, rec, ident, mode="inplace", extra=(), nested=False):
        self.rec, self.ident, self.mode, self.extra, self.nested = rec, ident, mode, list(extra), nested
        self.tick = 0

    def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd=None,
                       freeze=False):
        frozen = bool(freeze)
        if not frozen:
            self.tick = self.rec.next()
        inp, linp = digest(occupations), digest(lead_transitions)
        self.rec.add(ev="occ", id=self.ident, frozen=frozen, v1=volt(volt_limits_g1), v2=volt(volt_limits_g2),
                     shape=list(occupations.shape[:-1]), inp=inp, linp=linp, gen=generate_csd is not None)
        if generate_csd is not None and (not frozen or self.nested):
            for (a, b, r) in self.extra:
                self.rec.add(ev="ask", id=self.ident, v1=volt(a), v2=volt(b), res=resol(r))
                o, l = generate_csd(a, b, r)
                self.rec.add(ev="got", id=self.ident, occ=digest(o), lead=digest(l), shape=list(np.shape(o)[:-1]))
        # the noise depends on the (not resampled) tick only
        if self.mode == "inplace":
            occupations *= 3
            occupations += self.ident + self.tick * 0.5
            lead_transitions *= 2
            lead_transitions += self.ident
        else:
            occupations = occupations * 3 + (self.ident + self.tick * 0.5)
            lead_transitions = lead_transitions * 2 + self.ident
        self.rec.add(ev="occ_end", id=self.ident, frozen=frozen, out=digest(occupations),
                     lout=digest(lead_transitions))
        return occupations, lead_transitions


class _StubArr:
    def _run(self, x, v1, v2):
        x = np.asarray(x)
        out = x * 2 + self.ident + self.rec.next() * 0.25
        self.rec.add(ev=self.kind, id=self.ident, v1=volt(v1), v2=volt(v2), inp=digest(x), out=digest(out))
        return out


class StubPot(_StubArr, SensorPotentialDistortionInterface):
    kind = "pd"

    def __init__(self, rec, ident):
        self.rec, self.ident = rec, ident

    def noise_function(self, mu_sens, volt_limits_g1, volt_limits_g2):
        return self._run(mu_sens, volt_limits_g1, volt_limits_g2)


class StubResp(_StubArr, SensorResponseDistortionInterface):
    kind = "rd"

    def __init__(self, rec, ident):
        self.rec, self.ident = rec, ident

    def noise_function(self, sensor_response, volt_limits_g1, volt_limits_g2):
        return self._run(sensor_response, volt_limits_g1, volt_limits_g2)
