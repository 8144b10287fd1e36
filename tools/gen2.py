# --------------------------------------------------------------------- soil models and layers
prop("C19", "Nonlinear curves interpolate within their limits, at every strain",
     "A modulus-reduction or damping curve gives for every strain (number, list or array) the value interpolated in the logarithm of strain between its points, held "
     "constant beyond them and clipped to its limits, also after its strains or values were redefined; values of a wrong length are refused. "
     "Each curve of the published database can be loaded under its name and satisfies this, and a soil type reports the density, minimum damping, nonlinearity and quality factor of its contents.",
     "curves, limits, query strains, sequences of redefinitions, every published curve, soil types",
     "Tests read a few points of one or two curves.",
     [("curves", "site.py: NonlinearCurve, ModulusReductionCurve, DampingCurve, PUBLISHED_CURVES"), ("material", "site.py: SoilType")],
     "Interpolation written out with scalar arithmetic.", over=("inputs", "histories"))
prop("C20", "Empirical soil models give the published curves for all parameters",
     "Darendeli, Menq, Kishida, Wang, Rollins, Alemu and two-parameter hyperbolic soil types (and fixed-value soil types) give, for every combination of their parameters and strains, the modulus reduction, damping and minimum damping of the published regressions, as "
     "ratios rather than percent. Omitted parameters take the documented defaults, given ones (minimum damping, strains, name, unit weight) are honoured, and modulus never increases with strain.",
     "models, plasticity, stress, confinement, void ratio, uniformity, organic content, frequency, cycles, strains",
     "Tests compare one parameter set per model with stored curves.",
     [("empirical models", "site.py: DarendeliSoilType, MenqSoilType, KishidaSoilType, WangSoilType, FixedValues")],
     "Regressions written again from the publications, coefficients included.", over=("inputs", "configurations"))
prop("C21", "A layer's modulus and damping follow the strain last assigned",
     "After any sequence of strains, maximum strains, redefined properties and resets, a layer's shear modulus, velocity, damping and stress are those of its curves "
     "at the strain last assigned, its small-strain velocity and minimum damping stay as defined, and the reported relative errors are the changes in modulus and damping by the last assignment. Resetting "
     "restores the small-strain properties.",
     "sequences of assignments and resets up to the stated depth, soil types, strains (scalar or by frequency), minimum damping",
     "Tests assign one strain; stale or history-dependent values need sequences.",
     [("strain-dependent properties", "site.py: Layer.strain, strain_max, reset, max_error, duplicate")],
     "A small state model of the layer is run in lock-step and compared after each operation.", over=("histories", "inputs"))
prop("C22", "Equality, hashes and copies of soil types, layers and profiles are sound",
     "Equality of soil types and of layers is an equivalence that follows their properties, and equal objects have equal hashes. Copies of soil types, layers and profiles equal the original, and neither "
     "assigning properties of the copy nor calculating with it alters the original or the reverse.",
     "pairs and triples of objects, histories before comparison, changes made after copying",
     "Tests compare one pair; aliasing appears only after particular changes.",
     [("equality and copies", "site.py: SoilType.__eq__, __hash__, copy, Layer.__eq__, copy, duplicate, Profile.copy, set_soil")],
     "Complete products of objects and changes.", over=("inputs", "histories"))
# --------------------------------------------------------------------- variation
prop("C23", "Varied layering follows the depth-dependent Poisson process",
     "For every outcome of the random draws, the varied layering has positive thicknesses that end exactly at the original depth, interfaces where the cumulative rate reaches the drawn increments, and "
     "each new layer has the soil type and small-strain velocity the seed profile has at its middle; the seed is not altered. A varied half-space depth lies within its limits, and gives a profile that ends there with properties of the seed at each depth.",
     "outcomes of the draws, rate parameters, seed profiles, half-space depths",
     "Tests check one random realization, mostly its shape.",
     [("layering", "variation.py: LayerThicknessVariation, ToroThicknessVariation, HalfSpaceDepthVariation")],
     "The random generator is replaced by an enumerated one and the inverse of the rate is checked.")
prop("C24", "Varied velocities follow the correlated lognormal model within limits",
     "For every outcome of the random draws each varied velocity is the seed's median times exp(variate times its standard deviation), with variates within the truncation limits, and the seed otherwise unchanged. The covariance from which they are "
     "drawn has the given standard deviations (corrected for truncation) and the interlayer correlation of Toro's model (each layer depending on the one above) for the depth and distance of the layers, including the depth-dependent and generic models.",
     "outcomes of the draws, profiles, standard deviations, correlation parameters, generic models, limits",
     "Tests check sizes or limits of one sample.",
     [("velocity", "variation.py: VelocityVariation, ToroVelocityVariation, DepthDependToroVelVariation, TruncatedNorm")],
     "The random generator is replaced by an enumerated one that also records the covariance it was given.", over=("inputs", "configurations"))
prop("C25", "Varied soil curves and simulated profiles combine the variations soundly",
     "For every outcome of the random draws, each distinct soil type gets one realization of its curves per simulated profile, following the published standard deviations with the stated correlation and within the limits, and soil types without curves stay as they are. "
     "Simulated profiles apply the requested variations of layering, depth, velocity and curves together, number exactly as many as requested, and leave the seed unaltered.",
     "outcomes of the draws, models, limits, profiles sharing soil types, combinations of variations, counts",
     "Tests check one random realization of one profile.",
     [("soil types", "variation.py: SoilTypeVariation, DarendeliVariation, SpidVariation"), ("simulation", "variation.py: iter_varied_profiles")],
     "The random generator is replaced by an enumerated one.", over=("inputs", "configurations"))
# --------------------------------------------------------------------- logic trees, tools, tables, plots
prop("C26", "Logic trees enumerate exactly the admissible branches and weights",
     "Iterating a logic tree yields, once and in order, every combination of alternatives with positive weight in which each alternative's requirements all hold and its exclusions do not all hold, numbers being compared up to rounding and lists "
     "by membership. Each branch has the product of the weights, and the values and parameters of its alternatives; conditional distributions that sum to one give weights that sum to one. Trees given as objects, dictionaries or (compressed) JSON are the same.",
     "trees: numbers of nodes and alternatives, values (names, numbers, lists, repeated), weights, requirements and exclusions, sources",
     "Tests count the branches of two trees.",
     [("trees", "logic_tree.py: LogicTree, Branch, Node, Alternative, Realization")],
     "Branches are enumerated by a direct evaluation of the conditions.", over=("inputs", "configurations"))
prop("C27", "Site attenuation, scattering, and damping adjusted to a target are exact",
     "A profile's site attenuation is the sum over layers of twice damping times thickness over velocity at small strain, and its scattering attenuation the excess of the slope of the exact transfer function over it. Adjusting the damping "
     "to a target leaves excluded layers and other properties as they are, gives the others damping inversely proportional to velocity such that the total plus scattering equals the target, in place or on a copy, and otherwise refuses without changing the profile.",
     "profiles, strained or not, targets, ways to exclude layers, in place or not, frequency ranges",
     "Tests adjust random profiles without exclusions to a 1 % tolerance.",
     [("attenuation", "tools.py: calc_atten_scatter, adjust_damping_values"), ("increments", "site.py: Layer.incr_site_atten, Profile.site_attenuation")],
     "Same independent SH solution as C01; exact balance of the target.")
prop("C28", "Travel-time averages and simplified Rayleigh velocity match their definition",
     "For every profile and depth (inside a layer, at an interface, within the half-space) the time-averaged velocity is depth over travel time with the current velocities, Vs30 the same for 30 m with small-strain velocities, and the simplified "
     "Rayleigh velocity follows the published mode-shape expression. Splitting layers, editing in a different order or copying does not change the averages.",
     "profiles, depths, strains, sequences of edits",
     "Tests average three depths of one profile.",
     [("averages", "site.py: Profile.time_average_vel, vs30, simplified_rayliegh_vel, travel_time, slowness")],
     "Averages summed layer by layer.", over=("inputs", "histories"))
prop("C29", "Generic and crustal-model profiles and their stresses are exact",
     "The generic velocity model gives the published median and standard deviation for every documented region, Vs30 and depth, and warns outside its range; mean effective stresses are those at mid-layer above and below the water table. A crustal-model "
     "profile loads as stored whether compressed or not, merging similar layers on request while keeping travel time and weight, and a fetched one is stored as received while failures are reported and leave files alone.",
     "regions, velocities, depths, layers, water tables, tolerances, file kinds, answers of the service",
     "No test covers them.",
     [("generic", "generic.py: kea16_profile, load_ncm_profile, fetch_ncm_profile, _simplify_profile"), ("stress", "tools.py: calc_mean_eff_stress")],
     "Scalar reference computations; the network is replaced by a stand-in.", over=("inputs", "configurations"))
prop("C30", "Profiles keep their values through tables and nrattle control files",
     "A profile made from a table has the table's layers in order with their values, independent of column order, index, names or further columns, and the table of a profile states the values of its layers with their depths. An nrattle control file "
     "is read completely whatever its comments and number formats, and gives a profile in metres with damping from inverse quality or quality, and the half-space below.",
     "tables, columns, indices, layers, control files, formats, quality values",
     "Tests use one control file and never write or read tables with variations.",
     [("tables", "site.py: Profile.from_dataframe, to_dataframe"), ("nrattle", "tools.py: read_nrattle_ctl, profile_from_nrattle_ctl, split_line, parse_fixed_width")],
     "Expected values are those from which the file or table was generated.")
prop("C31", "Plots draw the collected results and profiles and change nothing",
     "Plots of outputs draw one line per collected result with its values against its reference (depth downwards for profiles) under its name, and the median when statistics are asked for. Plots of a profile and of the amplification by depth draw the "
     "named quantity over the whole depth, on given or new axes, and no plot changes the results.",
     "outputs, numbers of results, styles, profiles of different layering, options",
     "Tests do not look at what is drawn.",
     [("outputs", "output.py: Output.plot, ProfileBasedOutput.plot, plot_amplification_evolv"), ("profile", "site.py: Profile.plot")],
     "The artists of the figure are compared with independently kept results.", over=("inputs", "configurations"))

prop("C32", "Calculations in different threads do not disturb one another",
     "Calculations, outputs, motions, soil types, profiles and logic trees that belong to different threads, each thread working on its own "
     "motion, profile and calculator (the soil types may be shared), give the same results as one thread after the other, however the "
     "threads are interleaved. Random variations (one global generator) and plots (one current figure) are left out.",
     "pairs of jobs and all schedules of their executed lines with one preemption (two for short jobs)",
     "Tests run in one thread, and stress tests sample a few schedules that the interpreter happens to choose.",
     [("calculators", "propagation.py: LinearElasticCalculator, EquivalentLinearCalculator, FrequencyDependentEqlCalculator, QuarterWaveLenCalculator"),
      ("motions", "motion.py: TimeSeriesMotion"),
      ("soil types and profiles", "site.py: SoilType, ModifiedHyperbolicSoilType, WangSoilType, Layer, Profile"),
      ("logic trees", "logic_tree.py: LogicTree, Branch")],
     "A controlled scheduler (mc/sched.py) runs the real code in two threads, one at a time, and preempts at every executed source line; "
     "results are compared with those of each job alone.", over=("schedules",))
prop("C33", "Saved and restored campaigns go on as if they had not been saved",
     "Motions, soil types, curves, profiles, locations, calculators, outputs, logic trees and variations can be pickled (protocols 2 to 5) or "
     "deeply copied at any point of a campaign. What is restored, in the same or in another process, answers as the saved object does; the "
     "campaign it is part of goes on with the same results, soil types and layers shared as before; the saved campaign is not affected.",
     "objects, ways of saving, sequences of calculations and edits, points of the sequence at which it is saved",
     "Tests never pickle or deeply copy anything; what breaks depends on what was computed before.",
     [("motions", "motion.py: Motion, TimeSeriesMotion, RvtMotion, SourceTheoryRvtMotion, CompatibleRvtMotion"),
      ("sites", "site.py: SoilType and derived types, NonlinearCurve, Layer, Profile, Location"),
      ("calculators", "propagation.py: LinearElasticCalculator, EquivalentLinearCalculator, FrequencyDependentEqlCalculator, QuarterWaveLenCalculator"),
      ("outputs", "output.py: Output, OutputCollection"), ("logic trees", "logic_tree.py: LogicTree, Node, Branch"),
      ("variations", "variation.py: TruncatedNorm, VelocityVariation, SoilTypeVariation")],
     "All sequences of campaign steps up to a depth, saved at every point in several ways, run on the real code next to a twin that is never "
     "saved; every kind of object saved on its own; restored also in a fresh interpreter.", over=("histories",))
