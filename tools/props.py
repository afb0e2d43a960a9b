"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=(), thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, state=state, observe=observe, thorough=thorough))


SIM = "simcats/_simulation.py"
CONF = "TLA+ specification checked with TLC; "

prop("C01", "Admission of measurement requests and configuration values",
     "A measurement (CSD or sensor scan) is carried out exactly if a suitable configuration is present, every swept and fixed voltage lies within the limits of its own gate (bounds included, any sweep direction), ranges have two values, fixed sensor or plunger voltages are given both or not at all, and the resolution has one entry or two entries above one with both gates of a 2D scan really swept; its arrays then have one row per gate 2 pixel and one column per gate 1 pixel (1D: one entry per pixel). "
     "Every other request is refused with a ValueError before any component is used. "
     "A configuration value of the wrong kind is refused with a ValueError and leaves the configuration as it was.",
     ["inputs", "histories", "configurations"], "all sequences of configuration changes and requests, all voltages (also neighbouring doubles of the limits), all spellings of ranges and resolutions",
     "The tests request a handful of windows that lie well inside of the limits; refusals of single reasons and their combinations with the history of the limits are not exercised.",
     [SIM], [{"name": "range, resolution and limit checks of measure and measure_sensor_scan", "where": SIM + ": Simulation.measure, measure_sensor_scan, __check_volt_limits"}, {"name": "setters", "where": SIM + ": property setters"}],
     CONF + "TLC enumerates request/configuration histories, TLC validates the outcomes recorded from the code",
     "Model checking of the admission rules and TLC validation of recorded histories; sampled configurations and voltages, trusts the recording stubs.")
prop("C02", "Stages of a measurement: each once, in order, on the data of the previous stage",
     "A CSD measurement generates the ideal data of the requested window, applies every occupation distortion once in list order, computes the sensor potential from the distorted occupations, applies the potential distortions, the sensor response and the response distortions, each exactly once, in list order, on the result of the previous step and for the swept ranges of the two gates; it returns the final signal with the occupations and lead transitions after the last occupation distortion. "
     "A sensor scan uses the occupations of the fixed plunger voltages at every pixel and returns the masks that belong to the undistorted potential. "
     "Additional data a distortion asks for is generated for exactly the window it asks for and contains exactly the distortions in front of it, in frozen mode.",
     ["inputs", "configurations", "histories"], "all lists of distortions (also empty, in-place or copying, asking for additional data), both measurement kinds, 1D and 2D, all windows",
     "Tests compare final images of a few fixed pipelines; a stage applied twice, skipped for empty lists, fed with stale data or with the range of the other gate is not visible in them.",
     [SIM], [{"name": "pipeline", "where": SIM + ": Simulation.measure, measure_sensor_scan, __generate_csd"}],
     CONF + "TLC checks the pipeline state machine and validates the recorded component calls of real measurements against it",
     "Every recorded call is matched against the state machine; components are recording stubs, so the claim is about the simulation class itself.",
     observe=["calls of the component interfaces", "returned arrays"])
prop("C03", "Additional data replays the noise of the running measurement",
     "Data that an occupation distortion requests during a measurement (frozen mode) shows exactly the noise of that measurement: no random number and no parameter is drawn, the same window and data give the same result, and whether the distortion is active does not change. "
     "A measurement draws every parameter of an active distortion exactly once. "
     "Several dot jump distortions along different gates act independently: each line of the image jumps in the blocks of its own gate.",
     ["inputs", "configurations", "histories"], "all sequences of normal and frozen calls of every occupation distortion, all combinations of dot jumps, all windows and sweep directions",
     "Frozen calls only happen inside of measurements with several distortions; no test inspects them.",
     [SIM, "simcats/distortions/_dot_jumps.py", "simcats/distortions/_transition_blurring.py"],
     [{"name": "freeze", "where": "noise_function of the occupation distortions"}, {"name": "additional data", "where": SIM + ": Simulation.__generate_csd"}],
     CONF + "TLC validates histories of measured and frozen calls against the freeze contract",
     "Sampled histories; jumps are read off coded images, so the decision is exact for the recorded runs.")
prop("C04", "Ownership of configurations, metadata, arguments and results",
     "Objects and arrays handed to a simulation are copied: changing them later does not change the simulation, while changing what its attributes return does and takes effect in the next measurement. "
     "The metadata of a measurement describe the configuration and the arguments at the time of that measurement, stay as they are whatever is done to simulation or later measurements, and allow to rebuild an equal simulation. "
     "Measurements change neither their arguments nor earlier results nor the configuration of other simulations.",
     ["histories", "configurations"], "all sequences of configuring, mutating, measuring and rebuilding with several simulations",
     "Aliasing shows up only in histories that mutate an object after it was handed over; the tests never do.",
     [SIM], [{"name": "deepcopy in setters and metadata", "where": SIM + ": setters, measure, measure_sensor_scan"}],
     CONF + "TLC explores ownership histories (a model without copies is refuted) and validates observations of all handles after each step",
     "Histories are sampled; all handles are digested after every step, so any unexpected change is seen.")
prop("C05", "Ideal CSDs count the electrons below every total charge transition",
     "At every pixel of an ideal CSD, 1D or 2D, the occupations of both dots add up to the number of total charge transitions (TCTs) that lie below the voltages of the pixel in the rotated frame, whatever the sweep directions, resolution and window; pixels that carry a lead transition may count that transition. "
     "A window that reaches above the last TCT is refused with an IndexError.",
     ["inputs", "configurations"], "all well-formed ladders of TCTs, rotations, windows, resolutions, sweep directions, 1D scans in any direction",
     "Tests look at the default configuration at a few windows; region filling and scan line handling depend on how TCTs cross a window.",
     ["simcats/ideal_csd/geometric/_get_electron_occupation.py", "simcats/ideal_csd/geometric/_generate_lead_transition_mask.py", "simcats/ideal_csd/geometric/_ideal_csd_geometric_class.py"],
     [{"name": "electron occupation", "where": "simcats/ideal_csd/geometric: get_electron_occupation"}],
     CONF + "a TLA+ module defines the TCT geometry in exact integers; TLC decides every recorded pixel",
     "Exact oracle with tolerance bands at the TCTs; windows and ladders are sampled. Each lead transition keeps a length above zero.")
prop("C06", "Electrons are shared between the dots along the transitions of their region",
     "In an ideal CSD neither dot holds a negative number of electrons, and between two TCTs the electrons pass from one dot to the other, one at each interdot transition of the region; each passage follows the chosen distribution function over the distance from the anchors of the transition, with the configured width. "
     "Far away from the transitions of a region with n electrons the occupation is an integer pair that adds up to n.",
     ["inputs", "configurations"], "all well-formed ladders, rotations, windows, both distribution functions and widths including zero",
     "Tests compare one default configuration; other numbers of electrons, slopes, functions and zero width are not reached.",
     ["simcats/ideal_csd/geometric/_get_electron_occupation.py", "simcats/support_functions/_cumulative_distribution_functions.py"],
     [{"name": "distribution along the tunnel coupling", "where": "simcats/ideal_csd/geometric: get_electron_occupation"}],
     CONF + "exact integer geometry in TLA+ with tabulated distribution functions decides every recorded pixel",
     "Tolerance 0.15 % of an electron; sampled ladders and windows.")
prop("C07", "TCT curves run through their leads and round their corners by the Bezier curves",
     "The curve of a total charge transition consists of its straight lead transitions with the configured lengths and slopes, joined at every corner by the quadratic Bezier curve between the rounding points; it is periodic, continues outside of its first and last corner along the outermost straight lines (or periodically without limit of corners), and is continuous. "
     "Explicit evaluation and lookup tables of any size agree up to the resolution of the table, for single values and arrays in any order, and no argument is changed. "
     "The Bezier anchors in voltage space are the corner points of the same curve.",
     ["inputs", "configurations"], "all well-formed TCT parameters, all abscissae in and around all corners, number of peaks, lookup sizes",
     "Tests evaluate one parameter set at few positions.",
     ["simcats/ideal_csd/geometric/_tct_bezier.py", "simcats/ideal_csd/geometric/_calculate_all_bezier_anchors.py"],
     [{"name": "TCT evaluation", "where": "simcats/ideal_csd/geometric: tct_bezier"}, {"name": "anchors", "where": "simcats/ideal_csd/geometric: calculate_all_bezier_anchors"}],
     CONF + "TLC checks the laws of the geometry over all small parameters and decides recorded evaluations of the code",
     "Exact integer reference points; sampled parameters for the code, exhaustive small ones for the laws of the specification.")
prop("C08", "Lead transition masks mark exactly the crossings of TCTs",
     "Every pixel that carries label n in the lead transition mask of a 2D scan lies on or next to TCT n and belongs to the region with n electrons, and two neighbouring pixels (4-neighbourhood) without label never have different numbers of electrons, so that no transition is missing or has gaps. "
     "In a 1D scan exactly the pixels whose neighbour has fewer electrons are labelled, with the number of electrons of the pixel.",
     ["inputs", "configurations"], "all well-formed ladders, rotations, windows, resolutions (also very different ones), sweep directions",
     "Gaps and wrong labels depend on slope, window and step sizes; tests fix one window.",
     ["simcats/ideal_csd/geometric/_generate_lead_transition_mask.py"],
     [{"name": "mask", "where": "simcats/ideal_csd/geometric: generate_lead_transition_mask"}],
     CONF + "TLC decides every pixel of recorded masks with the exact geometry",
     "Tolerance of one pixel around a TCT; sampled ladders and windows.")
prop("C09", "Dot jumps shift blocks of lines towards lower voltages of their gate",
     "Dot jumps replace data by the data of pixels at lower or equal voltage of the jump gate, identically for all lines, for occupations and lead transitions, and for every sweep direction; blocks with and without shift alternate, starting unshifted at the lowest voltage. "
     "Mean block length and mean shift are given in volt and scale with the pixels of the jump gate; the distortion is inactive if the ratio says so or if the jump gate is not swept, and then leaves the data as it is. "
     "If no additional data can be generated, shifts end at the border of the image.",
     ["inputs", "configurations", "histories"], "all windows (1D in every direction, 2D), resolutions, sweep directions, parameters and seeds",
     "The result is random, tests can only compare one seed and direction.",
     ["simcats/distortions/_dot_jumps.py"], [{"name": "noise_function", "where": "simcats/distortions/_dot_jumps.py: OccupationDotJumps"}],
     CONF + "TLC checks the jump process and validates shifts decoded from coded images",
     "Exact for the recorded runs; statistics are bound through the parameters of the random draws.")
prop("C10", "Random telegraph noise alternates between zero and bursts along the pixels",
     "Active random telegraph noise adds a two-level process that runs along the pixels in measurement order (row by row): it starts without a burst, blocks of at least one pixel without and with a burst alternate, a burst keeps one height, and block lengths are geometric with the configured mean in volt, scaled to pixels by the gate with more pixels per volt, burst heights normal with the configured mean and deviation. "
     "Inactive noise and a mean length of zero leave the data as they are; the ratio decides about the activation (0 never, 1 always, unless no gate is swept), and the supplied array is never changed.",
     ["inputs", "configurations", "histories"], "all windows, resolutions, sweep directions, parameters, samplers and seeds, potential and response noise",
     "The noise is random; a test compares one seed and window.",
     ["simcats/distortions/_random_telegraph_noise.py"], [{"name": "noise_function", "where": "simcats/distortions/_random_telegraph_noise.py"}],
     CONF + "TLC checks that the run law accepts exactly the outcomes of the process and validates recorded noise, with 7 sigma bounds for its statistics",
     "Structural laws are exact, statistical laws within 7 sigma of the recorded samples.")

exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None

NOT_APPLICABLE = []

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            r = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": p["mechanism"], "state": list(p["state"]), "observe_at": list(p["observe"]) or ["return values of the public API"], "hook_needed": None}}
            f.write(json.dumps(r) + "\n")
    checks = []
    for p in P:
        c = {"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
             "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
        checks.append(c)
    m = {"version": 1, "setup_cmd": "bin/setup",
         "hooks": {"guard": "SIMCATS_VERIF", "enable": "no hooks are needed: the public API and the component interfaces are observed", "source_commits": []},
         "checks": checks, "not_applicable": NOT_APPLICABLE,
         "notes": "Specification in TLA+ (spec/), decided by TLC. bin/check runs one property; SIMCATS_REPO=<tree> checks another tree."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
