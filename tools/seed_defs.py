"""Planted bugs: edits of simcats/ and demonstrations. See seedtool.py."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed("s01-limit-magnitude", "C01",
     [("_simulation.py", """                        volt_g2 < self.__volt_limits_g2[0]
                        or volt_g2 > self.__volt_limits_g2[1]
""", """                        volt_g2 < self.__volt_limits_g2[0]
                        or abs(volt_g2) > np.max(np.abs(self.__volt_limits_g2))
""")],
     "a sensor scan with plunger gate 2 above its upper limit but below the magnitude of the lower limit",
     "a fixed plunger voltage outside of its limits is accepted", '''
import numpy as np
from simcats import Simulation, default_configs
c = dict(default_configs["GaAs_v2_extended_sensor"])
s = Simulation(**c)
s.ideal_csd_config = None
lim = np.array([-0.2, -0.05])
s.volt_limits_g2 = lim
s.measure_sensor_scan(np.array([-0.9, 0.3]), np.array([-0.9, 0.3]), -0.15, -0.1, np.array([5, 5]))
for v in (-0.03, 0.0, 0.1, 0.3, -0.21):
    try:
        s.measure_sensor_scan(np.array([-0.9, 0.3]), np.array([-0.9, 0.3]), -0.15, v, np.array([5, 5]))
    except ValueError:
        continue
    raise SystemExit(f"plunger voltage {v} was accepted with the limits {lim}")
''')

seed("s02-frozen-chain", "C02",
     [("_simulation.py", """                generate_csd = partial(generate_csd_with_noise, generate_csd=generate_csd,
                                       noise_function=i.noise_function)
""", """                generate_csd = partial(generate_csd_with_noise, generate_csd=self.__ideal_csd_config.get_csd_data,
                                       noise_function=i.noise_function)
""")],
     "at least three occupation distortions, the last of which requests additional data",
     "additional data contains only the distortion right before the requesting one", '''
import numpy as np
from simcats import Simulation
from simcats.distortions import OccupationDistortionInterface
from simcats.ideal_csd import IdealCSDInterface
class Csd(IdealCSDInterface):
    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution):
        return np.zeros((3, 2)), np.zeros(3)
class Add(OccupationDistortionInterface):
    def __init__(self, d):
        self.d = d
    def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd=None, freeze=False):
        return occupations + self.d, lead_transitions
class Ask(OccupationDistortionInterface):
    def noise_function(self, occupations, lead_transitions, volt_limits_g1, volt_limits_g2, generate_csd=None, freeze=False):
        other, _ = generate_csd(volt_limits_g1, volt_limits_g2, 3)
        assert np.all(other == occupations), (other, occupations)
        return occupations, lead_transitions
s = Simulation(ideal_csd_config=Csd(), occupation_distortions=[Add(1), Add(10), Add(100), Ask()])
s.measure(np.array([0., 1.]), np.array([0., 1.]), resolution=3)
''')


seed("s04-metadata-distortions", "C04",
     [("_simulation.py", """                    sensor_response=csd, volt_limits_g1=sweep_range_g1, volt_limits_g2=sweep_range_g2
                )

        metadata = {
            "sweep_range_g1": deepcopy(sweep_range_g1),
            "sweep_range_g2": deepcopy(sweep_range_g2),
            "volt_sensor_g1": deepcopy(volt_sensor_g1),
            "volt_sensor_g2": deepcopy(volt_sensor_g2),
            "volt_limits_g1": deepcopy(self.volt_limits_g1),
            "volt_limits_g2": deepcopy(self.volt_limits_g2),
            "volt_limits_sensor_g1": deepcopy(self.volt_limits_sensor_g1),
            "volt_limits_sensor_g2": deepcopy(self.volt_limits_sensor_g2),
            "resolution": deepcopy(resolution),
            "ideal_csd_config": deepcopy(self.ideal_csd_config),
            "sensor": deepcopy(self.sensor),
            "occupation_distortions": deepcopy(self.occupation_distortions),
""", """                    sensor_response=csd, volt_limits_g1=sweep_range_g1, volt_limits_g2=sweep_range_g2
                )

        metadata = {
            "sweep_range_g1": deepcopy(sweep_range_g1),
            "sweep_range_g2": deepcopy(sweep_range_g2),
            "volt_sensor_g1": deepcopy(volt_sensor_g1),
            "volt_sensor_g2": deepcopy(volt_sensor_g2),
            "volt_limits_g1": deepcopy(self.volt_limits_g1),
            "volt_limits_g2": deepcopy(self.volt_limits_g2),
            "volt_limits_sensor_g1": deepcopy(self.volt_limits_sensor_g1),
            "volt_limits_sensor_g2": deepcopy(self.volt_limits_sensor_g2),
            "resolution": deepcopy(resolution),
            "ideal_csd_config": deepcopy(self.ideal_csd_config),
            "sensor": deepcopy(self.sensor),
            "occupation_distortions": list(self.occupation_distortions or []) or self.occupation_distortions,
""")],
     "a distortion that is reconfigured (or measures again) after a measurement whose metadata are kept",
     "the metadata of a measurement change with the later state of its occupation distortions", '''
import numpy as np
from simcats import Simulation
from simcats.distortions import OccupationTransitionBlurringGaussian
from simcats.ideal_csd import IdealCSDInterface
class Csd(IdealCSDInterface):
    def get_csd_data(self, volt_limits_g1, volt_limits_g2, resolution):
        return np.zeros((3, 2)), np.zeros(3)
s = Simulation(ideal_csd_config=Csd(), occupation_distortions=[OccupationTransitionBlurringGaussian(0.25)])
meta = s.measure(np.array([0., 1.]), np.array([0., 1.]), resolution=3)[3]
s.occupation_distortions[0].sigma = 0.5
s.measure(np.array([0., 1.]), np.array([0., 1.]), resolution=3)
assert meta["occupation_distortions"][0].sigma == 0.25, "metadata changed"
assert meta["occupation_distortions"][0].latest_sigma == 0.25
''')

seed("s03-stale-jumps", "C03",
     [("distortions/_dot_jumps.py", """lam, axis=self.axis, rng=self.rng)
            self.__previous_noise = noise
        max_jump = np.max(noise)
        if generate_csd is not None and max_jump > 0:
            added_pixels = max_jump
            if self.axis == 1:  # jumps in x direction
""", """lam, axis=self.axis, rng=self.rng)
        max_jump = np.max(noise)
        if max_jump > 0:
            # keep the jumps for frozen calls
            self.__previous_noise = noise
        if generate_csd is not None and max_jump > 0:
            added_pixels = max_jump
            if self.axis == 1:  # jumps in x direction
""")],
     "a 2D measurement in which no block jumps after one with jumps, followed by a frozen call",
     "the frozen call shows the jumps of an earlier measurement", '''
import numpy as np
from simcats.distortions import OccupationDotJumps
o = OccupationDotJumps(scale=0.3, lam=0.05, axis=1, ratio=1, rng=np.random.default_rng(3))
lim = np.array([0., 1.])
base = np.repeat(np.repeat(np.arange(10.)[None, :, None], 4, axis=0), 2, axis=2)
both = set()
for _ in range(300):
    out, _ = o.noise_function(base.copy(), np.zeros((4, 10)), lim, lim, None)
    frozen, _ = o.noise_function(base.copy(), np.zeros((4, 10)), lim, lim, None, freeze=True)
    both.add(bool(np.array_equal(out, base)))
    assert np.array_equal(out, frozen)
assert len(both) == 2
''')

seed("s05-fixed-rotation", "C05",
     [("ideal_csd/geometric/_get_electron_occupation.py", "        csd_points_rot = rotate_points(points=csd_points, angle=-rotation)\n",
       "        csd_points_rot = rotate_points(points=csd_points, angle=np.pi / 4)\n")],
     "a 1D scan of an ideal CSD whose rotation is not the default one",
     "the electrons are counted in another frame than the transitions are defined in", '''
import numpy as np
from simcats.ideal_csd import IdealCSDGeometric
from simcats.ideal_csd.geometric import tct_bezier
from simcats.support_functions import rotate_points
for rot in (0.0, -0.5, -np.pi / 4, -1.0):
    p = [np.array([40., 40., 1., -1., -2., y, 2., y]) for y in (0., 100., 200.)]
    c = IdealCSDGeometric(tct_params=p, rotation=rot)
    ends = rotate_points(points=np.array([[-30., -60.], [30., 150.]]), angle=rot)
    occ, _ = c.get_csd_data(ends[:, 0], ends[:, 1], 50)
    xy = np.column_stack((np.linspace(-30, 30, 50), np.linspace(-60, 150, 50)))
    want = sum((xy[:, 1] >= tct_bezier(q, xy[:, 0], None, 1)).astype(int) for q in p)
    assert np.allclose(occ.sum(1), want), rot
''')

seed("s06-narrow-coupling", "C06",
     [("support_functions/_cumulative_distribution_functions.py", "    if np.isclose(gam, 0.0):\n", "    if np.isclose(gam, 0.0, atol=1e-4):\n", "first")],
     "a tunnel coupling narrower than about 0.2 mV",
     "electrons jump between the dots although there is a tunnel coupling", '''
import numpy as np
from simcats.ideal_csd import IdealCSDGeometric
for u in (1e-3, 1e-5, 2e-6):
    p = [np.array([40., 40., 1., -1., -2. - 40 * n, 48. + 60 * n, 2. - 40 * n, 48. + 60 * n]) for n in range(3)]
    p = [q * np.array([u, u, 1, 1, u, u, u, u]) for q in p]
    c = IdealCSDGeometric(tct_params=p, rotation=0.0)
    occ, _ = c.get_csd_data(np.array([-1.1 * u, 1.1 * u]), np.array([60 * u, 60 * u]), 5)
    if u == 1e-3:
        want = occ
    assert np.allclose(occ, want, atol=1e-3), (u, occ, want)
''')

seed("s07-valley-anchors", "C07",
     [("ideal_csd/geometric/_calculate_all_bezier_anchors.py", """                left_anchor_x = center_anchor_x - x_dist_right
                left_anchor_y = center_anchor_y - (x_dist_right * params[3])
                right_anchor_x = center_anchor_x + x_dist_left
                right_anchor_y = center_anchor_y + (x_dist_left * params[2])
""", """                left_anchor_x = center_anchor_x - x_dist_left
                left_anchor_y = center_anchor_y - (x_dist_left * params[3])
                right_anchor_x = center_anchor_x + x_dist_right
                right_anchor_y = center_anchor_y + (x_dist_right * params[2])
""")],
     "Bezier curves that are not symmetric, at the valleys of a TCT",
     "the anchors of the valleys do not lie where the rounding of the TCT starts and ends", '''
import numpy as np
from simcats.ideal_csd.geometric import calculate_all_bezier_anchors, tct_bezier
p = np.array([50., 60., 0.25, -1.0, 0., 100., 12., 94.])
# peak at x = 4.8: left part 3.2..., right part longer
c = calculate_all_bezier_anchors([p, p], 2, rotation=0.0)
a = c[2]
assert a.shape[0] == 3
x_c = a[0, 1, 0]
left, right = x_c - a[0, 0, 0], a[0, 2, 0] - x_c
assert abs(left - right) > 1
assert abs((a[1, 1, 0] - a[1, 0, 0]) - right) < 1e-9, a[1]
assert abs((a[1, 2, 0] - a[1, 1, 0]) - left) < 1e-9, a[1]
for i in range(3):
    for j in (0, 2):
        assert abs(tct_bezier(p, a[i, j, 0], None, 2) - a[i, j, 1]) < 1e-6
''')

seed("s08-two-corners", "C08",
     [("ideal_csd/geometric/_generate_lead_transition_mask.py", """    corner_points = np.array(
        [[x_lims[0], y_lims[0]], [x_lims[0], y_lims[1]], [x_lims[1], y_lims[0]], [x_lims[1], y_lims[1]]]
    )
""", """    # (the outermost corners of the rotated window)
    corner_points = np.array([[x_lims[0], y_lims[1]], [x_lims[1], y_lims[0]]])
""")],
     "a rotation other than the usual one, e.g. of the opposite sign",
     "lead transitions end in the middle of the image", '''
import numpy as np
from simcats.ideal_csd import IdealCSDGeometric
p = [np.array([40., 40., 1., -1., -2., 48., 2., 48.]), np.array([40., 40., 1., -1., -2., 148., 2., 148.]), np.array([40., 40., 1., -1., -2., 1000., 2., 1000.])]
for rot in (-np.pi / 4, 0.0, np.pi / 4, np.pi / 8):
    c = IdealCSDGeometric(tct_params=p, rotation=rot)
    xc, yc = np.cos(rot) * 0 - np.sin(rot) * 50, np.sin(rot) * 0 + np.cos(rot) * 50
    occ, lead = c.get_csd_data(np.array([xc - 30, xc + 30]), np.array([yc - 30, yc + 30]), np.array([61, 61]))
    tot = np.round(occ.sum(2))
    free = lead == 0
    for d in ((tot[:, 1:] != tot[:, :-1]) & free[:, 1:] & free[:, :-1], (tot[1:] != tot[:-1]) & free[1:] & free[:-1]):
        assert not d.any(), (rot, d.sum())
    # the transition passes through the centre of the window
    assert lead[28:33, 28:33].any()
    x, y = np.meshgrid(np.linspace(xc - 30, xc + 30, 61), np.linspace(yc - 30, yc + 30, 61))
    u, v = np.cos(rot) * x + np.sin(rot) * y, -np.sin(rot) * x + np.cos(rot) * y
    from simcats.ideal_csd.geometric import tct_bezier
    want = sum((v > tct_bezier(p[k], u.ravel(), None, k + 1).reshape(u.shape)).astype(int) for k in range(3))
    assert np.all((tot == want) | (lead > 0)), (rot, ((tot != want) & (lead == 0)).sum())
''')

seed("s09-row-step", "C09",
     [("distortions/_dot_jumps.py", "                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupation.shape[0]\n",
       "                step_size = (volt_limits_g2[1] - volt_limits_g2[0]) / occupation.shape[1]\n")],
     "jumps along gate 2 in a 2D scan with different numbers of rows and columns",
     "the data that moves into the image belongs to other voltages", '''
import numpy as np
from simcats.distortions import OccupationDotJumps
rows, cols = 6, 12
lim1, lim2 = np.array([0., 1.2]), np.array([0., 0.6])
asked = []
def gen(volt_limits_g1, volt_limits_g2, resolution):
    r = np.atleast_1d(resolution)
    n = r[1] if len(r) == 2 else 1
    asked.append((volt_limits_g2, n))
    v = np.linspace(volt_limits_g2[0], volt_limits_g2[1], n)
    occ = np.repeat(np.repeat(v[:, None, None], cols, axis=1), 2, axis=2)
    if len(r) == 1:
        return occ[0], np.zeros(cols)
    return occ, np.zeros((n, cols))
hit = 0
for s in range(60):
    o = OccupationDotJumps(scale=0.2, lam=0.2, axis=0, ratio=1, rng=np.random.default_rng(s))
    v = np.arange(rows) * 0.1
    occ = np.repeat(np.repeat(v[:, None, None], cols, axis=1), 2, axis=2)
    out, _ = o.noise_function(occ, np.zeros((rows, cols)), lim1, lim2, gen)
    shift = (v[:, None, None] - out) / 0.1
    assert np.all(shift > -1e-9)
    assert np.allclose(shift, np.round(shift)), (s, shift[:, 0, 0])
    hit += out.min() < -1e-9
assert hit
''')

seed("s10-memory-order", "C10",
     [("distortions/_random_telegraph_noise.py", "    noise = noise[0:size].reshape(original.shape)\n",
       "    noise = noise[0:size].reshape(original.shape, order=\"F\" if original.flags.f_contiguous else \"C\")\n", "first")],
     "noise on an image in Fortran order (e.g. a transposed array)",
     "bursts run along the columns instead of the measured lines", '''
import numpy as np
from simcats.distortions import SensorPotentialRTN
def noise(order):
    o = SensorPotentialRTN(scale=0.05, std=0.1, height=1.0, ratio=1, rng=np.random.default_rng(3))
    z = np.zeros((12, 40), order=order)
    return np.asarray(o.noise_function(z, np.array([0., 0.4]), np.array([0., 0.12])))
a, b = noise("C"), noise("F")
assert np.array_equal(a, b), "noise depends on the memory layout"
assert np.any(a)
''')

seed("s11-long-records", "C11",
     [("distortions/_pink_noise.py", "    noise = cn.powerlaw_psd_gaussian(1, np.prod(original.shape), fmin=fmin, random_state=rng) * scale\n",
       "    noise = cn.powerlaw_psd_gaussian(1, original.shape, fmin=fmin, random_state=rng) * scale\n")],
     "pink noise on a 2D image",
     "every line gets independent noise, the slow part of the spectrum is missing", '''
import numpy as np
from simcats.distortions import SensorPotentialPinkNoise
o = SensorPotentialPinkNoise(sigma=1.0, rng=np.random.default_rng(1))
a = np.array([o.noise_function(np.zeros((40, 20)), np.array([0., 1.]), np.array([0., 1.])) for _ in range(80)])
# neighbouring lines of pink noise are correlated
m = a.mean(axis=2)
r = np.mean(m[:, 1:] * m[:, :-1]) / np.mean(m ** 2)
assert r > 0.3, r
''')

seed("s12-diagonal-blur", "C12",
     [("distortions/_transition_blurring.py", """                occupations[:, 0] = gaussian_filter1d(occupations[:, 0], sigma=sigma)
                occupations[:, 1] = gaussian_filter1d(occupations[:, 1], sigma=sigma)
""", """                occupations[:, 0] = gaussian_filter1d(occupations[:, 0], sigma=sigma, mode="nearest")
                occupations[:, 1] = gaussian_filter1d(occupations[:, 1], sigma=sigma, mode="nearest")
""")],
     "a 1D scan with a transition close to an end of the sweep",
     "lines are not mirrored at their ends: electrons near the border get the wrong weight", '''
import numpy as np
from simcats.distortions import OccupationTransitionBlurringGaussian
occ = np.zeros((20, 2))
occ[1:4, 0] = 1
occ[17:, 1] = 1
tot = occ.sum(0)
out, _ = OccupationTransitionBlurringGaussian(0.1).noise_function(occ.copy(), np.zeros(20), np.array([0., 1.]), np.array([0., 0.]))
assert np.allclose(out.sum(0), tot, atol=1e-3), (out.sum(0), tot)
''')

seed("s13-descending-exponential", "C13",
     [("support_functions/_parameter_sampling.py", "                    self.__range = (sampled + 0.5 * sampling_range, sampled - 0.5 * sampling_range)\n",
       "                    self.__range = (sampled - 0.5 * sampling_range, sampled + 0.5 * sampling_range)\n")],
     "an exponential sampler with a descending total range that is narrowed by a sampling range",
     "samples accumulate at the wrong end of the range", '''
import numpy as np
from simcats.support_functions import ExponentialSamplingRange
for seed in range(5):
    s = ExponentialSamplingRange(total_range=(1.0, 0.0), scale=0.2, sampling_range=0.5, rng=np.random.default_rng(seed))
    x = np.array([s.sample_parameter() for _ in range(2000)])
    assert np.mean(x) > (x.min() + x.max()) / 2, (np.mean(x), x.min(), x.max())
    s = ExponentialSamplingRange(total_range=(0.0, 1.0), scale=0.2, sampling_range=0.5, rng=np.random.default_rng(seed))
    x = np.array([s.sample_parameter() for _ in range(2000)])
    assert np.mean(x) < (x.min() + x.max()) / 2
''')

seed("s14-grid-cache", "C14",
     [("sensor/_sensor_generic.py", """        # Voltage matrix for 2D scans
        if occupations.ndim == 3:
""", """        # Voltage matrix of the previous scan, if the grid is still the same
        grid = (occupations.shape, volt_limits_g1[0], volt_limits_g1[1], volt_limits_g2[0])
        if getattr(self, "_grid", None) is not None and self._grid[0] == grid:
            voltages = self._grid[1]
        # Voltage matrix for 2D scans
        elif occupations.ndim == 3:
"""), ("sensor/_sensor_generic.py", """            voltages = [[voltages_g1[i], voltages_g2[i]] for i in range(len(voltages_g1))]
            voltages = np.array(voltages)
""", """            voltages = [[voltages_g1[i], voltages_g2[i]] for i in range(len(voltages_g1))]
            voltages = np.array(voltages)
        self._grid = (grid, voltages)
""")],
     "two scans of equal shape that differ in nothing but the second voltage of gate 2",
     "the second scan sees the voltages of gate 2 of the first one", '''
import numpy as np
from simcats.sensor import SensorGeneric
s = SensorGeneric(alpha_dot=np.array([-0.1, -0.2]), alpha_gate=np.array([0.3, 0.4]))
for shape, n in (((4, 2), 4), ((3, 4, 2), 3)):
    for stop in (0.5, 0.9, -0.3):
        out = s.sensor_potential(np.zeros(shape), np.array([0.1, 0.2]), np.array([0.0, stop]))
        v1, v2 = np.linspace(0.1, 0.2, 4), np.linspace(0.0, stop, n)
        want = 0.3 * v1 + 0.4 * v2 if len(shape) == 2 else 0.3 * v1[None, :] + 0.4 * v2[:, None]
        assert np.allclose(out, want), (shape, stop, out, want)
''')

seed("s15-old-electrons", "C15",
     [("sensor/_sensor_scan_sensor_generic.py", """        self._occupations = occupations

        # Calculation of the potentials
""", """        if np.shape(getattr(self, "_occupations", None)) != occupations.shape:
            self._occupations = occupations

        # Calculation of the potentials
""")],
     "a sensor with a final rise (or deformed peaks), two scans of equal shape with different occupations",
     "the final rise of the second scan ends where the electrons of the first one had it", '''
import numpy as np
from simcats.sensor import SensorPeakGaussian, SensorRiseGLF, SensorScanSensorGeneric
from simcats.sensor.barrier_function import BarrierFunctionGLF
def sensor():
    b = BarrierFunctionGLF(0.01, 0.99, 0, 1, 20, 1, 1, offset=-0.5)
    return SensorScanSensorGeneric(barrier_functions=(b, b), sensor_peak_function=SensorPeakGaussian(sigma=0.02, mu0=-0.1, height=0.05),
                                   alpha_dot=np.array([[-0.02, -0.01], [0.0, 0.0], [0.0, 0.0]]), alpha_sensor_gate=np.array([[0.1, 0.1], [0.9, 0.2], [0.2, 0.9]]),
                                   final_rise=SensorRiseGLF(0, 0, 0.5, 100, 0.5, 1))
def scan(s, n):
    return s.sensor_response(s.sensor_potential(np.ones((9, 9, 2)) * n, 0.0, 0.0, np.array([-0.9, 0.3]), np.array([-0.9, 0.3])))
old = sensor()
for n in (0, 1, 3):
    a, b = scan(old, n), scan(sensor(), n)
    assert np.allclose(a, b), (n, np.max(np.abs(a - b)))
''')

seed("s16-descending-boundary", "C16",
     [("sensor/_sensor_scan_sensor_generic.py", """                diffs = np.diff(sensor_pot)
                average_diff = np.mean(diffs)
                threshold = np.abs(average_diff)
""", """                diffs = np.diff(sensor_pot)
                threshold = np.max([np.mean(diffs), 0.0])
""")],
     "a one-dimensional sensor scan from high to low potential that starts or ends on a Coulomb peak",
     "peaks at the first or last pixel of descending one-dimensional scans are not labelled", '''
import numpy as np
from simcats.sensor import SensorPeakGaussian, SensorScanSensorGeneric
from simcats.sensor.barrier_function import BarrierFunctionGLF
b = BarrierFunctionGLF(0.01, 0.99, 0, 1, 20, 1, 1, offset=-0.5)
for mu0 in (-0.5998, -0.4501):
    s = SensorScanSensorGeneric(barrier_functions=(b, b), sensor_peak_function=SensorPeakGaussian(sigma=0.002, mu0=mu0, height=0.05),
                                alpha_sensor_gate=np.array([[0.5, 0.5], [0.9, 0.2], [0.2, 0.9]]))
    marks = []
    for x in (np.array([-0.6, -0.45]), np.array([-0.45, -0.6])):
        pot = s.sensor_potential(np.zeros((30, 2)), 0, 0, x, x)
        pot[1:] = (s.barrier_functions[0].pinch_off + s.barrier_functions[0].fully_conductive) / 2
        marks.append(s.get_sensor_scan_labels(0, 0, x, x, pot)[1])
    assert np.array_equal(marks[0], marks[1][::-1]), marks
    assert np.max(marks[0]) == 1, marks
''')

seed("s17-blind-barrier", "C17",
     [("sensor/_sensor_scan_sensor_generic.py", """            v2_pinch_off_left = ((-self.alpha_sensor_gate[2, 0] * v1_pinch_off + pot_bar2) /
                                 self.alpha_sensor_gate[2, 1])
            point = (v1_pinch_off, v2_pinch_off_left)
""", """            v2_pinch_off_left = pot_bar2 / self.alpha_sensor_gate[2, 1]
            point = (v1_pinch_off, v2_pinch_off_left)
""")],
     "a sensor whose first barrier does not see the second sensor gate, while the second barrier sees the first one",
     "the middle line (and the fully conductive point) of such sensors lies at the wrong voltages, deformed peaks run elsewhere", '''
import numpy as np
from simcats.sensor import SensorPeakGaussian, SensorScanSensorGeneric
from simcats.sensor.barrier_function import BarrierFunctionMultiGLF
from simcats.sensor.deformation import SensorPeakDeformationLinear
glf = (0, 1, 50, 1, 1, 1, -1.0)
s = {}
for a12 in (0.0, 1e-9):
    bar = (BarrierFunctionMultiGLF(-0.3, 0.1, *glf), BarrierFunctionMultiGLF(-0.2, 0.1, *glf))
    s[a12] = SensorScanSensorGeneric(barrier_functions=bar, sensor_peak_function=SensorPeakGaussian(sigma=0.01, mu0=-0.1, height=0.1),
                                     alpha_sensor_gate=np.array([[0.3, 0.4], [0.9, a12], [0.5, 0.8]]),
                                     sensor_peak_deformations={0: SensorPeakDeformationLinear(angle=1.2)})
out = [x.sensor_response(x.sensor_potential(np.zeros((12, 12, 2)), 0.0, 0.0, np.array([-0.6, 0.3]), np.array([-0.6, 0.3]))) for x in s.values()]
assert np.allclose(out[0], out[1], atol=1e-5), np.max(np.abs(out[0] - out[1]))
''')

seed("s18-pinch-off-cache", "C18",
     [("sensor/barrier_function/_barrier_function_glf.py", '''        """Potential value of the pinch off."""
        return inverse_glf(
''', '''        """Potential value of the pinch off."""
        key = (self.asymptote_left, self.asymptote_right, self.growth_rate, self.asymmetry, self.shape_factor,
               self.offset, self.pinch_off_percentage)
        if getattr(self, "_pinch_off", (None, None))[0] == key:
            return self._pinch_off[1]
        value = inverse_glf(
'''), ("sensor/barrier_function/_barrier_function_glf.py", """            denominator_offset=self.denominator_offset,
            offset=self.offset
        )

    @property
    def pinch_off_percentage""", """            denominator_offset=self.denominator_offset,
            offset=self.offset
        )
        self._pinch_off = (key, value)
        return value

    @property
    def pinch_off_percentage""")],
     "the pinch-off of a barrier function is used before and after a change of its denominator offset",
     "the pinch-off potential does not follow the changed denominator offset", '''
import numpy as np
from simcats.sensor.barrier_function import BarrierFunctionGLF
b = BarrierFunctionGLF(0.1, 0.9, 0, 1, 20, 1, 1)
for d in (1, 1.5, 0.7):
    b.denominator_offset = d
    new = BarrierFunctionGLF(0.1, 0.9, 0, 1, 20, 1, 1, denominator_offset=d)
    assert b.pinch_off == new.pinch_off, (d, b.pinch_off, new.pinch_off)
''')

seed("s19-sticky-fmin", "C19",
     [("distortions/_pink_noise.py", """        return pink_gaussian_noise(original=mu_sens, scale=sampled, fmin=self.fmin, rng=self.rng)
""", """        # no frequency below that of the whole record
        self.fmin = max(self.fmin, 1 / np.size(mu_sens))
        return pink_gaussian_noise(original=mu_sens, scale=sampled, fmin=self.fmin, rng=self.rng)
""")],
     "a measurement with few pixels, followed by a larger one with the same pink noise object",
     "the pink noise of a measurement depends on the smallest measurement before it", '''
import numpy as np
from simcats.distortions import SensorPotentialPinkNoise
lim = np.array([0.0, 1.0])
a, b = (SensorPotentialPinkNoise(sigma=1.0, rng=np.random.default_rng(3)) for _ in range(2))
a.noise_function(np.zeros((4, 4)), lim, lim)
a.rng = np.random.default_rng(7)
b.rng = np.random.default_rng(7)
x, y = (d.noise_function(np.zeros((30, 30)), lim, lim) for d in (a, b))
assert np.array_equal(x, y), np.max(np.abs(x - y))
''')

seed("s20-short-ladder", "C20",
     [("config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py", """            _ = sim.measure(volt_limits_g1, volt_limits_g2, resolution=np.array([10, 10]))
""", """            _ = sim.measure(np.array([-0.2, -0.07]), volt_limits_g2, resolution=np.array([10, 10]))
""")],
     "a sampled configuration whose last transition lies close to the upper right corner of the voltage limits, measured there",
     "some sampled configurations cannot be measured everywhere within their limits", '''
import numpy as np
from simcats import Simulation
from simcats.config_samplers import sample_random_variations_v3_config
for i in range(250):
    c = sample_random_variations_v3_config()
    Simulation(volt_limits_g1=c["volt_limits_g1"], volt_limits_g2=c["volt_limits_g2"], ideal_csd_config=c["ideal_csd_config"]).measure(
        np.array([-0.07, -0.06]), np.array([-0.07, -0.06]), resolution=np.array([10, 10]))
''')

seed("s21-nearly-parallel", "C21",
     [("support_functions/_linear_algebra.py", """        if m1 == m2:
            if b1 == b2:
""", """        if np.isclose(m1, m2):
            if np.isclose(b1, b2):
""")],
     "two lines with slopes that differ by less than about 1e-5 of their value or 1e-8",
     "nearly parallel lines with one common point are refused as parallel", '''
import numpy as np
from simcats.support_functions import line_line_intersection
for m1, b1, m2, b2, want in ((0.5, 0, 0.500001, -1e-6, (1, 0.5)), (2e-9, 0, -2e-9, 4e-9, (1, 2e-9)), (1.0, 0.0, 2.0, -1.0, (1, 1))):
    got = line_line_intersection((m1, b1), (m2, b2))
    assert np.allclose(got, want, rtol=1e-6), (got, want)
''')

seed("s22-close-enough", "C22",
     [("support_functions/_reset_offset_mu_sens.py", """    dqd_sim.sensor.offset_mu_sens = target_mu_sens - (potentials[0] - dqd_sim.sensor.offset_mu_sens)
""", """    if not np.isclose(potentials[0], target_mu_sens, rtol=1e-2):
        dqd_sim.sensor.offset_mu_sens = target_mu_sens - (potentials[0] - dqd_sim.sensor.offset_mu_sens)
""")],
     "a sensor whose potential at the start of the sweep is already within one percent of the target",
     "the sensor is not retuned if it is close to its target", '''
import numpy as np
from simcats import Simulation, default_configs
from simcats.support_functions import reset_offset_mu_sens
s = Simulation(**default_configs["GaAs_v1"])
s.sensor_potential_distortions = []
for start in (-0.15, -0.151, -0.1502, -0.12):
    r1, r2 = np.array([start, -0.1]), np.array([-0.14, -0.14])
    reset_offset_mu_sens(s, -0.06, r1, r2)
    occ, _ = s.ideal_csd_config.get_csd_data(r1, r2, 20)
    pot = s.sensor.sensor_potential(occ, r1, r2)
    assert abs(pot[0] + 0.06) < 1e-9, (start, pot[0])
''')

seed("s23-each-gate-sorted", "C23",
     [("support_functions/_plotting.py", """        volt_limits_g1 = volt_limits_g1[::-1]
        volt_limits_g2 = volt_limits_g2[::-1]

    plt.plot""", """        volt_limits_g1, volt_limits_g2 = np.sort(volt_limits_g1), np.sort(volt_limits_g2)

    plt.plot""")],
     "a sorted plot of a one-dimensional scan with descending gate 1 and ascending gate 2",
     "the ticks show the voltages of gate 2 in reversed order", '''
import matplotlib
matplotlib.use("Agg")
import numpy as np
from matplotlib import pyplot as plt
from simcats.support_functions import plot_csd
plot_csd(np.arange(9.0), np.array([0.4, 0.1]), np.array([0.5, 0.9]))
t = [x.get_text() for x in plt.gca().get_xticklabels()]
assert t[0] == "(0.100;0.900)" and t[-1] == "(0.400;0.500)", t
''')

seed("s24-rounded-window", "C24",
     [("_simulation.py", """        # Perform simulation
        occupations, lead_transitions = generate_csd(
            volt_limits_g1=sweep_range_g1, volt_limits_g2=sweep_range_g2, resolution=resolution
        )

        # add distortions""", """        # Perform simulation (the occupations of a window only depend on the ideal CSD)
        window = (id(self.__ideal_csd_config), tuple(np.round(np.ravel((sweep_range_g1, sweep_range_g2)), 4)),
                  tuple(np.ravel(resolution)))
        if getattr(self, "_window", (None,))[0] != window:
            self._window = (window, generate_csd(
                volt_limits_g1=sweep_range_g1, volt_limits_g2=sweep_range_g2, resolution=resolution
            ))
        occupations, lead_transitions = deepcopy(self._window[1])

        # add distortions""")],
     "the same simulation measures two windows that differ by less than a tenth of a millivolt",
     "the second measurement has the occupations of the first window", '''
import copy
import numpy as np
from simcats import Simulation, default_configs
c = copy.deepcopy(default_configs["GaAs_v1"])
for n in ("occupation_distortions", "sensor_potential_distortions", "sensor_response_distortions"):
    c[n] = None
s, t = Simulation(**c), Simulation(**c)
a = np.array([-0.14, -0.1])
s.measure(a, a, resolution=np.array([90, 80]))
x = s.measure(a + 4e-5, a, resolution=np.array([90, 80]))[1]
y = t.measure(a + 4e-5, a, resolution=np.array([90, 80]))[1]
assert np.max(np.abs(x - y)) < 1e-6, np.max(np.abs(x - y))
''')

seed("s25-specks", "C05",
     [("ideal_csd/geometric/_get_electron_occupation.py", """            indices = np.where(im_labels == reg)
            temp_point =""", """            indices = np.where(im_labels == reg)
            # specks belong to the region next to them
            if len(indices[0]) < 3:
                csd_mask[indices] = csd_mask[max(indices[0][0] - 1, 0), max(indices[1][0] - 1, 0)]
                continue
            temp_point =""")],
     "a 2D scan with a corner of one or two pixels that a transition cuts off",
     "the pixels in the corner have wrong electrons", '''
import copy
import numpy as np
from simcats import default_configs
csd = copy.deepcopy(default_configs["GaAs_v1"]["ideal_csd_config"])
bad = 0
for i in range(300):
    s1, s2 = np.array([-0.12, -0.1]) + i * 1e-4, np.array([-0.12, -0.1])
    occ, lab = csd.get_csd_data(s1, s2, np.array([41, 41]))
    for k in (0, 1):
        one, _ = csd.get_csd_data(s1[[k, k]], s2[[k, k]], 1)
        bad += lab[-k, -k] == 0 and abs(occ[-k, -k].sum() - one[0].sum()) > 0.5
assert bad == 0, bad
''')
