prop("C11", "White noise is independent, pink noise 1/f, both with the configured strength",
     "White noise adds independent normal values of mean zero and the configured standard deviation to every pixel. "
     "Pink noise adds noise of mean zero whose total standard deviation is the configured one and whose spectral density falls like 1/f along the pixels in measurement order down to the configured minimal frequency, below which it is constant. "
     "The noise does not depend on the data, is proportional to its strength (zero strength changes nothing), is new in every call, its strength is drawn once per call and reported, and the supplied array is never changed.",
     ["inputs", "histories", "configurations"], "all images (1D, 2D, single pixels, any memory layout), strengths, samplers, minimal frequencies and seeds",
     "The noise is random; a test compares one seed and shape.",
     ["simcats/distortions/_sensor_response_white_noise.py", "simcats/distortions/_sensor_potential_pink_noise.py"],
     [{"name": "noise_function", "where": "SensorResponseWhiteNoise, SensorPotentialPinkNoise"}],
     CONF + "TLC checks the block laws that tell the spectra apart on noise-like records and validates recorded noise, with 7 sigma bounds for its statistics",
     "Call laws are exact, spectra and moments are decided within statistical bounds from some ten thousand recorded values.")
prop("C12", "Transitions are blurred by a normalised kernel of the configured width in volt",
     "Transition blurring convolves each dot's occupation along the sweep (along gate 1 in 2D scans) with a normalised, symmetric kernel - a Gaussian, or the derivative of the Fermi function - and mirrors lines at their ends; the width is given in volt and scales with the pixels per volt of the sweep in its own direction. "
     "A width of zero or below, or a scan that sweeps no gate, leaves the occupations as they are; lead transitions never change. "
     "The width is drawn once per measurement, kept for frozen calls, and reported.",
     ["inputs", "histories", "configurations"], "all occupations, 1D and 2D windows in any sweep direction, resolutions, widths, samplers and sequences of measured and frozen calls",
     "Tests compare square images of one window.",
     ["simcats/distortions/_transition_blurring.py"],
     [{"name": "noise_function", "where": "OccupationTransitionBlurringGaussian, OccupationTransitionBlurringFermiDirac"}, {"name": "kernel", "where": "simcats/support_functions/_fermi_filter1d.py"}],
     CONF + "the kernel and the convolution are defined in TLA+, TLC checks their laws and decides every recorded line",
     "Tolerance 0.3 % of the largest occupation; sampled lines up to 31 pixels and widths up to 11 pixels.")
prop("C13", "Parameter samplers stay in one interval and follow their distribution",
     "All samples of a sampler lie in one interval inside of the total range; its width is the configured sampling range, or the total range if none (or a larger one) is given, and it is placed uniformly inside of the total range when the sampler is built. "
     "Samples follow the configured normal, uniform, log-normal or (from the first to the second end of the range, in any direction) exponential distribution restricted to the interval. "
     "A sampler reports its last sample without changing it, and equally seeded samplers draw equal samples.",
     ["inputs", "histories", "configurations"], "all ranges (ascending, descending for the exponential sampler), sampling ranges, distribution parameters, seeds and sequences of draws",
     "The tests for the samplers need hours and are not part of the reliable suite; single draws cannot show a wrong distribution.",
     ["simcats/support_functions/_parameter_sampling.py"], [{"name": "sample_parameter", "where": "simcats/support_functions/_parameter_sampling.py: NormalSamplingRange, UniformSamplingRange, LogNormalSamplingRange, ExponentialSamplingRange"}],
     CONF + "TLC checks the sampler state machine and validates recorded samples, with 7 sigma bounds for their distribution",
     "Interval laws are exact, distributions are decided within 7 sigma of the recorded samples. The default mean of narrowed normal samplers is not decided.")
prop("C14", "The sensor sees every dot and gate through its lever arms and sums its peaks",
     "The sensor potential of every pixel is the offset plus the dots' occupations and the gates' voltages of that pixel weighted with the dots' and gates' lever arms, for 1D and 2D scans of any shape and sweep direction. "
     "The response at a potential is the sum of all configured Coulomb peaks (Gaussian or Lorentzian with position, width, height and offset), or the potential itself without peak function. "
     "Later changes of objects handed to the sensor do not change it, unsupported configurations are rejected with a ValueError and leave it as it was, and inputs are never changed.",
     ["inputs", "histories", "configurations"], "all lever arms, offsets, peak lists, scan shapes, sweep directions and sequences of (accepted and rejected) settings",
     "Tests evaluate the default configurations only.",
     ["simcats/sensor/_sensor_generic.py", "simcats/sensor/_sensor_peak_gaussian.py", "simcats/sensor/_sensor_peak_lorentzian.py"],
     [{"name": "sensor_potential", "where": "simcats/sensor/_sensor_generic.py"}, {"name": "sensor_response", "where": "simcats/sensor/_sensor_generic.py"}],
     CONF + "TLC checks the configuration state machine (ownership, rejection) and the potential and peak laws, and validates recorded histories of a sensor step by step",
     "Tolerances: 1e-5 in the response, 2e-6 in the potential.")
SCAN = "simcats/sensor/_sensor_scan_sensor_generic.py"
prop("C15", "Sensors for scans see gates and dots per part and combine three resistances",
     "A sensor for sensor scans gives the potentials of sensor dot, barrier 1 and barrier 2, each the sum of its own offset, dots, gates and sensor gates weighted with its own lever arms (one pair or number stands for all three), for every pixel of 1D and 2D scans of either kind. "
     "The response is the one of three resistances in series: the sum of the peaks (or the final rise at the point where both barriers are fully conductive, if that is larger) and the two barrier functions, zero where one of them is zero. "
     "Sweeping gates of the dots and of the sensor together and unsupported configurations is refused with a ValueError and leaves the sensor as it was; later changes of objects handed over and the response itself change neither the sensor nor the inputs.",
     ["inputs", "histories", "configurations"], "all lever arms, offsets, peaks, barriers, rises, scan kinds, shapes, sweep directions and sequences of settings and scans",
     "Tests evaluate one sensor at default windows.",
     [SCAN], [{"name": "sensor_potential", "where": SCAN}, {"name": "sensor_response", "where": SCAN}, {"name": "setters", "where": SCAN}],
     CONF + "TLC checks the configuration state machine and the series and geometry laws, and validates recorded histories of sensors step by step",
     "Tolerances: 2e-6 in the potentials, 1e-4 relative to the peaks in the response. The final rise is decided for scans of the sensor gates.")
prop("C16", "Label masks of sensor scans mark the regimes and the Coulomb peaks",
     "The conductive area mask is 0 where a barrier is not above its pinch-off, 2 where both are and the potential of the sensor dot is above the one of the point where both barriers are fully conductive, and 1 otherwise. "
     "The Coulomb peak mask numbers, per line of the image, the pixel closest to the top of each peak, as long as it lies in the oscillation regime (1), and marks the first or last pixel of a line only if the top is closer than the mean step of the potential; all other pixels are 0. "
     "The masks returned by a sensor scan of a simulation are those of its undistorted potentials, and labelling leaves its arguments as they were.",
     ["inputs", "configurations"], "all sensors, peak lists (also unsorted, empty, without peak function), thresholds, scan windows, directions and shapes",
     "Tests compare the masks of one scan.",
     [SCAN, SIM], [{"name": "get_sensor_scan_labels", "where": SCAN}, {"name": "measure_sensor_scan", "where": SIM}],
     CONF + "TLC checks the mask rules and decides both masks of every recorded scan",
     "Pixels within 2e-6 of a threshold and ties within 6e-6 may fall on either side; peak numbers are accepted in list order or in order of potential.")
prop("C17", "Deformed Coulomb peaks follow their line or circle",
     "A deformed Coulomb peak of a sensor scan has its top, at a pixel, at the potential the deformation gives for the signed distance of the sensor gate voltages from the line through the pinch-off point along which the sensor dot's potential grows; other peaks stay where they are, and the configured peaks are not changed by scans. "
     "The linear deformation shifts by the distance times the length of the sensor dot's lever arms times the cotangent of its angle; the circle follows the arc through the top whose centre lies below (positive radius) or above, and stays at its centre's height beyond the radius. "
     "Response and labels use the same tops, and scans that sweep gates of the dots are not deformed.",
     ["inputs", "histories", "configurations"], "all lever arms, peaks, angles, radii of both signs, pinch-off points, scan windows, directions and shapes",
     "Tests compare one deformed scan with a stored image, which holds the known finding.",
     [SCAN, "simcats/sensor/deformation"], [{"name": "calc_mu", "where": "simcats/sensor/deformation"}, {"name": "sensor_response", "where": SCAN}],
     CONF + "TLC checks the geometry of the deformations and decides recorded deformed scans and single deformations",
     "Known finding: scans of a Simulation (not of a sensor on its own) use one distance for all pixels. The unit of the radius is the one the code uses.")
GLF = "simcats/support_functions/_generalized_logistic_function.py"
BAR = "simcats/sensor/barrier_function"
prop("C18", "Generalised logistic functions, barrier functions and the final rise",
     "The generalised logistic function is the one of Richards for all its parameters, its inverse gives the potential at which it reaches a value, and the sum of several of them is the sum of the single ones; no argument is changed. "
     "A barrier function has its value, and its pinch-off and fully conductive potentials are where it has the configured percentages of its range, after any sequence of changes of its parameters. "
     "A final rise rises from its left to its right asymptote so that it reaches the configured percentage at the potential it is asked to end at; parameters without meaning are refused with a ValueError and leave barriers and rises as they were.",
     ["inputs", "histories", "configurations"], "all parameters of the functions, potentials (single values, arrays of any shape) and sequences of changes",
     "Tests compare single points of the default functions.",
     [GLF, BAR, "simcats/sensor/_sensor_rise_glf.py"],
     [{"name": "glf", "where": GLF}, {"name": "inverse_glf", "where": GLF}, {"name": "pinch_off, fully_conductive", "where": BAR}, {"name": "SensorRiseGLF", "where": "simcats/sensor/_sensor_rise_glf.py"}],
     CONF + "TLC checks the laws of the functions on exact instances and decides recorded values and histories of barrier functions",
     "Values are compared with a relative tolerance of 1e-5; instances with integer shape parameters are decided exactly.")
prop("C19", "Results depend only on configuration, request and random generators",
     "Two measurements of equal requests by equally configured simulations whose random generators are in equal states give equal results and leave equal states, whatever either simulation measured or was configured to before, and copies, pickles and simulations rebuilt from metadata are no exception. "
     "A refused request draws no random number, a measurement never uses generators of another simulation or the global one of numpy, and no measurement repeats the white noise of another one. "
     "Distortions and samplers built without a generator are independent of each other.",
     ["inputs", "histories", "configurations"], "all interleavings of building, copying, pickling, rebuilding, configuring (by assignment and in place), seeding and measuring several simulations, with accepted and refused requests",
     "Tests measure once per simulation; stale caches and shared generators need histories.",
     [SIM, "simcats/distortions", "simcats/support_functions/_parameter_sampling.py", "simcats/sensor", "simcats/ideal_csd"],
     [{"name": "measure", "where": SIM}, {"name": "measure_sensor_scan", "where": SIM}, {"name": "rng", "where": "simcats/distortions"}],
     CONF + "TLC checks the history law on a model of simulations with generators and caches (with counterexamples for leaking, shared and early drawing variants), and validates recorded histories of real simulations step by step",
     "Histories of up to 26 steps with up to six simulations; results are compared with a relative tolerance of 1e-9.")
SAMPLER = "simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py"
prop("C20", "Sampled configurations lie in their ranges and can be measured",
     "Every configuration sampled with the random_variations_v3 sampler lies in the ranges and relations the sampler documents: equal transitions shifted by one vector until they cover the voltage limits, lead angle, interdot transition, lever arms bound to each other, peaks inside the potential range with their minimal distance and similar heights and offsets (or a chain of peaks with its final rise and barriers), and distortions whose strength the quality multiplier restricts. "
     "Such a configuration can be measured everywhere within its limits, its operating point is zero or, if asked for, the steepest rising point of its sensor function. "
     "Configurations share no state with each other or with the default configurations, which stay as they are, freely drawn parameters use their whole range, and other sensor types or multipliers outside (0, 1] raise a ValueError.",
     ["inputs", "random draws", "configurations"], "all sensor types, quality multipliers, options and random draws of the sampler",
     "Tests sample a few configurations and compare nothing.",
     [SAMPLER], [{"name": "sample_random_variations_v3_config", "where": SAMPLER}],
     CONF + "TLC checks the constructions of the sampler as state machines (peak placement never stuck, transitions cover, chain increases; with a counterexample for the larger distance) and decides every sampled configuration",
     "Full windows are measured with at least 10 x 10 pixels: coarser scans can need transitions beyond the last one. Noise strengths are compared within seven standard deviations.")
SUP = "simcats/support_functions"
prop("C21", "Geometric helpers and distribution functions",
     "A point is below a line exactly if it has a smaller value there; two lines intersect in their one common point and are refused with a ValueError if they are parallel, the same or no lines; a line and a circle have exactly their zero, one or two common points, and radii that are not positive are refused. "
     "Signed distances are the distances to the infinite line through both points, positive to the right of its direction, rotations turn points counter-clockwise about the origin, and pixels map linearly to voltages. "
     "Sigmoid and Cauchy distributions, their sums (steps for a width of zero) and the derivative of the Fermi-Dirac distribution have their values at every position, and no function changes its arguments.",
     ["inputs"], "all points, lines (vertical, horizontal, parallel, tangent), circles, angles, positions and parameters, in all supported representations",
     "Tests do not touch these functions one by one.",
     [SUP], [{"name": "line_line_intersection, line_circle_intersection, is_point_below_line", "where": SUP + "/_linear_algebra.py"},
             {"name": "signed_dist_points_line", "where": SUP + "/_signed_dist_points_line.py"}, {"name": "rotate_points", "where": SUP + "/_rotate_points.py"},
             {"name": "sigmoid_cdf, cauchy_cdf", "where": SUP + "/_cumulative_distribution_functions.py"}],
     CONF + "TLC checks the laws on all small exact instances and decides recorded calls with exactly representable inputs",
     "Cumulative distributions are compared within 3e-4.")
prop("C22", "Retuning puts the sensor at its target for the start of the sweep",
     "After resetting the offset of a sensor for a sweep, the potential at the first pixel of a measurement of that sweep is the target, for all sweep directions and dimensions, whatever the offset was before, so that retuning twice is retuning once. "
     "Nothing but the offset of that simulation's sensor changes.",
     ["inputs", "histories"], "all histories of retuning, setting the offset and measuring; all targets, sweeps, lever arms, ideal CSDs",
     "No test retunes.",
     [SUP + "/_reset_offset_mu_sens.py", "simcats/sensor/_sensor_generic.py"], [{"name": "reset_offset_mu_sens", "where": SUP + "/_reset_offset_mu_sens.py"}],
     CONF + "TLC checks the law for all histories of the model (with a counterexample for the variant that keeps the old offset) and validates recorded histories step by step",
     "Sensors with one potential (SensorGeneric); potentials within 3e-8 V.")
prop("C23", "Plots show every pixel at its voltages",
     "plot_csd shows every value of a two-dimensional scan in its column and row, from the lowest to the highest voltage (or as measured, if sorting is switched off), and a one-dimensional scan as a line from the lowest to the highest voltage of gate 1, whatever the directions of the sweeps. "
     "The ticks spread over all pixels and are labelled with the voltages of both gates at that place, pixels have the shape that makes both axes equally long, and labels, units, titles, colorbar and the saved file are the requested ones. "
     "The data and the limits handed in are not changed.",
     ["inputs"], "all data, sweep directions (including one constant gate), numbers of ticks, labels and options",
     "No test plots anything.",
     [SUP + "/_plotting.py"], [{"name": "plot_csd", "where": SUP + "/_plotting.py"}],
     CONF + "TLC checks on all small scans that sorting keeps every value with its voltages, and decides every figure recorded from matplotlib",
     "At least two pixels per axis and ranges above zero for images; tick labels carry three digits; the figures are read from matplotlib's objects.")
prop("C24", "Noise-free measurements are functions of the voltages",
     "Without distortions, a pixel has the value that belongs to its voltages, whatever scan it is measured in: windows, directions, step sizes and numbers of pixels, lines and images, transposed and reversed scans, and scans of the plunger gates and of the sensor gates (at a common point) agree in signal, occupations and conductive areas. "
     "It does not matter which scans, noisy ones included, the simulation has measured before, or which simulation of the configuration, copied or rebuilt, measures.",
     ["inputs", "histories", "configurations"], "all histories of scans of the default and sampled configurations, on grids of voltages",
     "Tests compare single scans with stored images; nothing compares two different scans.",
     [SIM, "simcats/ideal_csd", "simcats/sensor"],
     [{"name": "measure", "where": SIM}, {"name": "measure_sensor_scan", "where": SIM}, {"name": "get_csd_data", "where": "simcats/ideal_csd"}, {"name": "sensor_response", "where": "simcats/sensor"}],
     CONF + "TLC checks on all pairs of small scans that scans of one field agree and that every common point is compared (with counterexamples for stale grids, ignored directions, exchanged axes and exchanged fixed gates), and decides every pair of scans of recorded histories",
     "Pixels of at most 2.1 mV and at least 12 pixels per axis of an image; pixels on or next to a lead transition may or may not count it and are not compared; no deformed Coulomb peaks (they only exist in sensor scans).")
