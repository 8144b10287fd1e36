#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand)."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
S = "src/pystrata/"
P = []


def prop(pid, title, statement, qtext, why, mech, note, over=("inputs",), na=None):
    """mech: [(mechanism name, "file.py: symbols")]"""
    assert len(title) <= 80, (pid, len(title))
    assert statement.count(". ") <= 2, (pid, statement.count(". "))
    files = sorted({w.split(":")[0] for _, w in mech})
    P.append(dict(id=pid, title=title, statement=statement, over=list(over), qtext=qtext, why=why,
                  files=[S + f for f in files], mech=[(n, S + w) for n, w in mech], note=note, na=na))


# --------------------------------------------------------------------- wave propagation
prop("C01", "Acceleration transfer functions solve the layered SH problem exactly",
     "For every layered profile over a visco-elastic half-space, the linear elastic calculator's acceleration transfer "
     "function between any two locations (any depth or layer interface, including the half-space) and any pair of wave "
     "fields (outcrop, within, incoming only) equals the exact solution of vertically propagating SH waves under a free "
     "surface. This holds for every number of layers (a bare half-space too), any damping below critical, and for profiles "
     "whose layers are identical to one another.",
     "profiles (number, thickness, velocity, density, damping of layers), frequency grids, locations and wave-field pairs",
     "The tests compare a few profiles with stored numbers; pairings of wave fields, depths inside layers and layer contrasts are unbounded.",
     [("wave amplitudes and transfer functions", "propagation.py: LinearElasticCalculator, my_wave_amps"),
      ("locations", "site.py: Profile.location, Location")],
     "Exact solution computed independently (matrix propagation of stress and displacement); tolerance 1e-6 of the peak.")
prop("C02", "Strain and stress transfer functions are the derivatives of that solution",
     "Between any input location and any location inside a profile, the calculated strain transfer function is the depth "
     "derivative of the exact displacement per unit input acceleration, and the stress transfer function is the complex "
     "modulus of that layer times the strain, in the units the calculator documents. The strain a calculator assigns to a "
     "layer is consistent with the transfer function at the location it names.",
     "profiles, frequencies, input and output locations, wave fields",
     "Stored results only cover mid-layer strain for few profiles; the relation has to hold at each depth, for each input wave field.",
     [("strain and stress transfer functions", "propagation.py: calc_strain_tf, calc_stress_tf")],
     "Same independent SH solution as C01.")
prop("C03", "Results do not depend on whether the optional compiler is installed",
     "The package can be imported and used without its optional just-in-time compiler, and every calculation gives then the "
     "same results as with it, including the wave amplitudes, quarter-wavelength amplification and depth averages.",
     "profiles, motions, calculators, with and without the compiler",
     "The tests run in one environment only, in which the optional dependency is present.",
     [("optional compilation", "propagation.py: numba fallback, my_wave_amps, my_trapz"), ("depth averages", "site.py: numba fallback")],
     "The same source is imported twice, once with the compiler hidden, and both copies are driven in lock-step.",
     over=("inputs", "configurations"))
prop("C04", "The complex shear modulus follows the selected damping model",
     "For each selectable model, the complex shear modulus and the complex wave velocity of a layer follow the published "
     "expression of its modulus and damping, a layer's modulus is density times velocity squared, and an unknown model is "
     "rejected. Changing the selected model, the strain or the soil of a layer is reflected in the next value read and in the next "
     "calculation.",
     "models, damping ratios (zero to above the validity limit), moduli, order of changes",
     "Tests read the complex modulus for one model and damping.",
     [("complex modulus", "site.py: COMP_MODULUS_MODEL, Layer.comp_shear_mod, Layer.comp_shear_vel")],
     "Closed-form expressions on the complete product of models and damping values.", over=("inputs", "configurations"))
prop("C05", "Automatic subdivision preserves the profile and honours the limit",
     "Subdividing a profile for a maximum frequency and wave fraction gives a new profile with the same total thickness, the same "
     "velocities, damping, soil types, water table and half-space at every depth, in which each layer is no thicker than the fraction of "
     "the wavelength at that frequency and no more sublayers than needed are used, of equal thickness per layer. The original profile is "
     "left unchanged, and edits or calculations on one profile do not affect the other.",
     "profiles, maximum frequencies, wave fractions, water table depths",
     "Tests check a single profile and frequency.",
     [("subdivision", "site.py: Profile.auto_discretize, Layer.copy")],
     "Independent sublayer count by exact ceiling; exact multiples may be rounded either way within 1e-9.")
prop("C06", "Locations resolve to the layer at that depth or index",
     "A location requested by depth resolves to the layer that contains the depth and the distance below that layer's top; by index it "
     "resolves to the top of that layer, negative indices counting from the half-space. Depths beyond the half-space's top lie in the "
     "half-space, looking up a layer by depth gives the same layer, and unknown wave fields and missing arguments are rejected; this is "
     "so also for profiles whose layers are equal to each other, and after edits of the profile.",
     "profiles, depths on and between interfaces, indices, wave fields, ways of building the profile",
     "Tests look up a few depths of profiles with distinct layers.",
     [("lookup", "site.py: Profile.location, Profile.lookup_depth, Location")],
     "Exact interval arithmetic on dyadic thicknesses.")
prop("C07", "Profile geometry and stresses stay consistent under every edit",
     "After every sequence of edits of a profile (adding, inserting, replacing, removing, reversing layers, changing thicknesses, "
     "changing the water table), each layer's depths, the profile's arrays, total and effective vertical stresses and pore pressures equal "
     "the ones of a profile newly built from the same layers. Stresses follow unit weights above the point and the hydrostatic pressure "
     "below the water table.",
     "sequences of edits up to the stated depth, starting profiles, water table depths",
     "Tests build profiles once; stale depths appear only after particular sequences of edits.",
     [("layer bookkeeping", "site.py: Profile (UserList), Profile.update_layers, Layer.depth, Layer.thickness"),
      ("stresses", "site.py: Profile.vert_stress, Layer.stress_vert, Profile.pore_pressure")],
     "Explicit model of the layer list run in lock-step with the real profile.", over=("histories", "inputs"))
prop("C08", "Equivalent-linear runs converge to strain-compatible properties",
     "The equivalent-linear calculator repeats linear analyses and sets every layer's modulus and damping to its curves at the effective "
     "strain (ratio times the maximum strain at mid-depth) until the largest relative change is below the tolerance or the iteration limit "
     "is reached, for time series and random vibration motions, any input location and any option. Strains above the strain limit raise an "
     "error, and the effective strain ratio derived from a magnitude follows the published expression.",
     "profiles, curves, motions and amplitudes, locations, tolerances, iteration limits, strain ratios and limits, initial strains",
     "Tests compare end results of stored cases; the number of iterations, stopping rules and every option combination are not reached.",
     [("iteration", "propagation.py: EquivalentLinearCalculator"), ("strain-dependent properties", "site.py: Layer.strain, IterativeValue")],
     "Independent implementation of the published algorithm run in lock-step, compared after the run (properties, strains, iterations).")
prop("C09", "Frequency-dependent equivalent-linear runs follow the selected method",
     "The frequency-dependent calculator assigns, at each frequency, the modulus and damping at the strain given by the selected spectrum "
     "shape (the two published ones or a smoothed spectrum of a given bandwidth) scaled by the maximum strain, and iterates until convergence or the "
     "limit, for time series and random vibration motions.",
     "methods, profiles, motions, amplitudes, locations, tolerances, limits",
     "Tests run one stored case per method at most.",
     [("strain spectra", "propagation.py: FrequencyDependentEqlCalculator")],
     "Independent implementation run in lock-step; Konno-Ohmachi smoothing by pykooh and RVT peaks by pyrvt are trusted.")
prop("C10", "Calculations are independent of history and leave their inputs alone",
     "A calculation gives the same result whatever calculations, with the same or another calculator, motion or profile, were made "
     "before with the same objects, and calculating leaves the motion, soil types and the geometry and initial properties of the profile unchanged. "
     "Results read from a calculator refer to the last calculation made.",
     "sequences of calculations over shared calculators, profiles, motions, and resets, up to the stated depth",
     "Tests make one calculation per fresh object.",
     [("calculator state", "propagation.py: AbstractCalculator, EquivalentLinearCalculator, FrequencyDependentEqlCalculator"),
      ("layer state", "site.py: Layer.reset, Profile.reset_layers")],
     "Every sequence up to the depth is compared with the same calculation on fresh objects.", over=("histories", "inputs"))

# --------------------------------------------------------------------- motions
prop("C11", "Fourier spectra of records are exact and invert to the record",
     "For every record, time step and requested transform length (even or odd, longer than the record), the frequencies, Fourier amplitudes and times equal "
     "those of the discrete Fourier transform with the documented scaling, and transforming back reproduces the "
     "zero-padded record, also through a transfer function and when the record is integer-valued. Derived spectra and series do not change the motion.",
     "records, lengths (each up to 65), time steps, transform lengths, transfer functions",
     "Tests use one recorded motion; odd or short lengths and padding are never met.",
     [("transforms", "motion.py: TimeSeriesMotion")],
     "Direct O(n^2) transform as the model.")
prop("C12", "Response spectra equal the exact response of the oscillator",
     "The pseudo-spectral acceleration of a motion at each oscillator frequency and damping, with or without a transfer function, is the peak of the exact oscillator "
     "response: of the record (at the time step of the record, continued periodically over the transform length) or, for random vibration motions, the expected peak of the filtered spectrum. The result is "
     "in the order of the requested frequencies, and independent of the other frequencies requested.",
     "records and spectra, oscillator frequencies (repeated, unordered), damping ratios, transfer functions",
     "Tests compare spectra of one motion with stored values to a tolerance.",
     [("oscillator response", "motion.py: Motion.calc_osc_accels, calc_sdof_tf"), ("random vibration motions", "motion.py: RvtMotion, CompatibleRvtMotion, SourceTheoryRvtMotion")],
     "Closed-form oscillator transfer function, direct peak; RVT peaks by pyrvt are trusted.")
prop("C13", "Intensity measures of motions match their definitions",
     "Peak acceleration, velocity and displacement, duration-based build-up of Arias intensity, Arias intensity and cumulative absolute velocity of every motion equal their definitions on the record, "
     "in the documented units; random vibration motions give the expected peaks.",
     "records (lengths, offsets, signs, integer values), time steps, transform lengths, transfer functions, spectra",
     "Tests compare two records with stored values.",
     [("intensity measures", "motion.py: Motion.pga, pgv, TimeSeriesMotion.calc_peak, calc_cav, arias intensity")],
     "Independent integration of the record by direct transform; zero padding included as the library defines it.")
prop("C14", "Recorded motions load exactly as written in AT2 and SMC files",
     "Reading a strong-motion file in AT2 or SMC format gives exactly the samples, number of points, time step and labels that the file holds, for any number of samples "
     "(also an incomplete last line), header length, comment lines and scaling.",
     "files generated for every combination of header, count, time step, layout and values in the alphabet",
     "Tests read two files.",
     [("loaders", "motion.py: TimeSeriesMotion.load_at2_file, load_smc_file")],
     "Files are generated by an independent writer of the published layouts in a scratch directory.", over=("inputs",))

# --------------------------------------------------------------------- output
prop("C15", "Outputs collect one named result per calculation",
     "Whatever the sequence of calculations, names and resets, every output holds one column of results per calculation in the order of the calls, named as requested, "
     "aligned with one reference axis, and shorter results are padded without changing existing values (integer or real). Collections of "
     "outputs treat all their members alike, iteration gives the results in order, and resetting empties them.",
     "sequences of calls, names, resets, profiles with different numbers of layers, record lengths, up to the stated depth",
     "Tests append twice at most with equal lengths.",
     [("bookkeeping", "output.py: Output, OutputCollection, append_arrays")],
     "A list model is run in lock-step, each result compared with a new output object's.", over=("histories", "inputs"))
prop("C16", "Each output reports the quantity it names",
     "The acceleration, velocity, strain and stress series, spectra, ratios, transfer functions, and depth profiles reported by the outputs equal the values computed from the exact "
     "wave solution for the final layer properties, at the requested location, in the documented units and on the right axis. This holds for linear, equivalent-linear and frequency-dependent "
     "calculations, and time series and random vibration motions; outputs that a motion cannot support are refused.",
     "outputs, options, locations, profiles, calculators, motions",
     "Tests check shapes or a few stored values of a subset of outputs.",
     [("outputs", "output.py: all Output classes")],
     "Independent SH solution evaluated for the layer properties that the calculation ended with.")
prop("C17", "Statistics and tables of outputs describe the collected results",
     "The reported median is the exponential of the mean logarithm and the dispersion the standard deviation of the logarithm over all collected results, profile outputs being "
     "compared at common depths, and tables contain every result under its name, on the reference axis.",
     "collections of results: numbers, names, profiles of different depth and layering",
     "Tests call the statistics for one collection and do not verify values.",
     [("statistics", "output.py: Output.calc_stats, to_dataframe, ProfileBasedOutput")],
     "Direct evaluation of the definitions on independently stored results.", over=("histories", "inputs"))
prop("C18", "Quarter-wavelength amplification and its fit follow the method",
     "For every profile, frequency, exponent method and site attenuation the quarter-wavelength calculator gives the amplification of the published procedure (travel-time "
     "averages to a quarter wavelength); a profile without contrast does not amplify. Fitting to a target returns a profile within the documented bounds that changes only what was asked for, "
     "matches the target no worse than the start and reproduces the reported amplification.",
     "profiles, frequencies, methods, attenuation, targets, adjust options",
     "Tests compare one profile with stored values and do not check the fit's result.",
     [("quarter-wavelength", "propagation.py: QuarterWaveLenCalculator")],
     "Independent implementation of the procedure; for the fit only its guarantees are decided, not the optimum.")

exec((V / "tools" / "gen2.py").read_text())


def main():
    with open(V / "properties.jsonl", "w") as fh:
        for p in P:
            fh.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
    checks = []
    for p in P:
        if p["na"]:
            continue
        i = p["id"]
        assert (V / "mc" / "checks" / f"{i.lower()}.py").exists(), i
        checks.append(dict(
            property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
            evidence_file=f"evidence/{i}.json",
            technique="stateless model checking: deviation-bounded exhaustive enumeration of inputs and operation sequences "
                      "of the real code against a reference model",
            level="model_checking",
            level_note="Every execution within the bounds in the evidence file is explored; nothing is sampled. " + p["note"]))
    man = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks,
               not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
               notes="No hooks in /repo: the checks import pystrata from /repo/src as it is. Replays: ./check <id> --replay <path>.")
    (V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


if __name__ == "__main__":
    main()
