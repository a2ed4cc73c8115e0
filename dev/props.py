prop("C01", "Caller's inputs are never modified",
     "Constructing a model, reading any of its predictions, or calling any public function leaves the scenario, arrays, lists "
     "and masked arrays that the caller passed in exactly as they were.",
     ["inputs", "histories"], "every public constructor, result, method and function; every combination of given and omitted inputs",
     "Tests compare returned numbers for a few scenarios; none looks at the arguments afterwards, and aliasing depends on which optional inputs are given.",
     MODELS + ["baker_jayaram_2008.py", "abrahamson_silva_1996.py", "gulerce_abrahamson_2011.py"],
     [("constructor keeps the scenario", "model.py:Model.__init__"), ("in-place array updates", "baker_jayaram_2008.py")],
     "effect and ownership analysis (abstract interpretation with alias tracking)",
     ENG + "Every in-place write reachable from a public entry point is traced to its owner; unknown targets are reported as undecided, not as violations.")
prop("C02", "Evaluating a model leaves shared tables and process settings alone",
     "No evaluation changes the coefficient tables, class-level data or module state that other evaluations read, nor process-wide "
     "settings such as numpy's error state, warning filters, the random seed or the root logger; importing the package does not either.",
     ["inputs", "histories"], "every public entry point, in any order, any number of times",
     "Each test builds its own model; interference between evaluations needs a particular pair of them in one process.",
     MODELS + ["baker_jayaram_2008.py", "hermkes_kuehn_riggelsen_2014.py"],
     [("shared coefficient tables", "model.py:load_data_file"), ("class attributes", "*.py: COEFF, PERIODS, PARAMS")],
     "effect analysis of writes to shared state and process settings",
     ENG + "Scenario-independent lazy initialisation of a module global is accepted.")
prop("C03", "Returned arrays and containers belong to the caller",
     "Writing into any array, list or mapping that a model or function returned never changes a later result of that model, of another "
     "model, or the caller's other data.",
     ["inputs", "histories"], "every public result; every later use of the same or another model",
     "No test writes to a returned array; the effect only shows in a later read.",
     MODELS + ["gulerce_abrahamson_2011.py", "baker_jayaram_2008.py"],
     [("results handed out as views", "model.py:GroundMotionModel.spec_accels, periods")],
     "escape/alias analysis of returned storage",
     ENG + "May-alias information is exact for the views, fancy indexing and ufuncs the package uses.")
prop("C04", "Results depend only on the scenario, not on time, order or history",
     "The same scenario gives the same result whenever it is evaluated: on a second read, after any other results were read, and after "
     "other scenarios or models were evaluated; nothing random or environmental enters, except the explicitly random simulation functions.",
     ["inputs", "histories"], "every model and result; all pairs of histories covered symbolically",
     "Tests evaluate each scenario once in a fixed order.",
     MODELS + ["hermkes_kuehn_riggelsen_2014.py", "derras_bard_cotton_2014.py"],
     [("lazily cached results", "hermkes_kuehn_riggelsen_2014.py"), ("instance caches", "model.py")],
     "dependence analysis plus value-graph equality across interpreted histories",
     ENG + "Histories: read again after every other member in reverse order; after another instance and every other setting.")
prop("C05", "Input validation has exact limit semantics",
     "Checking a numeric input reports a value below the lower or above the upper recommended limit (naming the input), and only then, "
     "with limits inclusive and zero a limit like any other; a missing required input is an error, a missing optional one becomes its "
     "default, and a category outside the allowed ones is reported; the supplied number is never altered.",
     ["inputs"], "all real values of the input and all shapes of declaration (one-sided, zero, equal limits, defaults, categories)",
     "Tests sample a few values; boundary, zero and falsy cases are distinct paths.",
     ["model.py"], [("parameter declarations", "model.py:NumericParameter.check, CategoricalParameter.check, Parameter.check")],
     "interval-region abstract interpretation of the validators",
     ENG + "Regions below/at/inside/at/above cover every real value.")
prop("C06", "Every model applies its declared validation and defaults",
     "For every model, a value outside a declared or published mechanism-specific limit is reported and one inside is not; leaving out a "
     "required input is an error; an unknown category is reported; leaving out an input with a default equals giving that default.",
     ["inputs", "configurations"], "every declared input of every model, every region of its values",
     "Tests never go outside limits for most models and do not compare omitted with explicit defaults.",
     MODELS + ["akkar_sandikkaya_bommer_2014.py", "derras_bard_cotton_2014.py"],
     [("declarations", "*.py: PARAMS"), ("model specific checks", "boore_stewart_seyhan_atkinson_2014.py:_check_inputs")],
     "interval-region abstract interpretation of model construction",
     ENG + "The mechanism-specific limits are a table in the rule, from the publications as the models state them.")
prop("C07", "Supplied inputs are used as given; estimates only fill gaps",
     "A value the user supplies, zero and False included, is what the model evaluates and keeps; an omitted input that can be estimated is "
     "the model's published estimator applied to the other inputs, and supplying that estimate gives the same predictions as omitting it.",
     ["inputs", "configurations"], "every combination of given and omitted inputs of every model",
     "Tests give or omit one fixed set of inputs, and zero is indistinguishable from omitted in `x or default` code only for zero.",
     MODELS + ["bayless_abrahamson_2019.py", "afshari_stewart_2016.py"],
     [("estimation of omitted inputs", "campbell_bozorgnia_2014.py:_check_inputs, chiou_youngs_2014.py:_check_inputs")],
     "value-flow analysis over given/omitted combinations",
     ENG)
prop("C08", "Every result is available when optional inputs are omitted",
     "With the required inputs given, every model can be built and every public result read for every combination of omitted optional "
     "inputs and every declared category, without an internal error; refusals are deliberate errors.",
     ["inputs", "configurations"], "all covering combinations of optional inputs and categories of every model, all results",
     "Tests use complete scenarios; missing keys and None only crash for particular combinations.",
     MODELS + ["akkar_sandikkaya_bommer_2014.py", "coppersmith_bommer_2014.py", "pinilla_ramos_et_al_2024.py"],
     [("optional inputs read from the scenario", "model.py:Scenario.__getattr__")],
     "exception (None/missing-key) analysis",
     ENG + "Numeric failures inside numpy (overflow) are not exceptions and are out of scope.")
prop("C09", "Every input a model requires can influence its predictions",
     "An input that the publication uses for a predicted quantity reaches every ordinate of that quantity under the conditions where it "
     "applies; every declared input and category changes some result; a model reads no input it does not declare.",
     ["inputs", "configurations"], "every declared input, every ordinate of every result, every covering combination",
     "A dropped or shadowed input changes numbers only where test data exercises that term.",
     MODELS + ["pinilla_ramos_et_al_2024.py", "pinilla_ramos_et_al_2023.py"],
     [("declarations", "*.py: PARAMS"), ("calculations", "*.py: _calc_ln_resp, _calc_ln_std")],
     "dependence (program slicing) analysis on value graphs",
     ENG + "The needed-input table is confirmed against the publications and today's tree.")
prop("C10", "Every published coefficient takes effect",
     "Each coefficient of each table the package ships influences some result of its model, and no result is computed from a missing "
     "or unreadable entry of a table.",
     ["inputs", "configurations"], "every column of every coefficient table; every element of every result, every covering combination of settings",
     "A dropped or misnamed coefficient only matters in the term, period and scenario that a test samples.",
     MODELS, [("coefficient tables", "model.py:load_data_file"), ("table users", "*.py: COEFF")],
     "use (dependence) analysis of the coefficient tables",
     ENG + "Columns that models knowingly do not apply (components of a total that is used) are listed in the rule.")
prop("C11", "Each ordinate belongs to its own period",
     "The value reported for a period (or frequency) is computed from the coefficients tabulated for that period, plus only the reference "
     "motion; medians, standard deviations and the period axis have equal lengths, increasing order and cover every tabulated period.",
     ["inputs", "configurations"], "every ordinate of every spectrum, peak value and standard deviation, every covering combination of settings",
     "Neighbouring periods differ by less than test tolerances; off-by-one rows show in a few ordinates.",
     MODELS + ["pinilla_ramos_et_al_2023.py", "bayless_abrahamson_2019.py"],
     [("row selections", "model.py:GroundMotionModel.INDICES_PSA"), ("reference rows", "*.py: _calc_ln_resp")],
     "row-dependence (slicing) analysis over value graphs",
     ENG + "Own rows are found by the period recorded in each table.")
prop("C12", "Peak values are available exactly where the model provides them",
     "PGA, PGV, PGD and their standard deviations are single numbers where the model has coefficients for them and otherwise refused with "
     "NotImplementedError; availability is the same for every scenario, and a standard deviation exists exactly when its median does.",
     ["inputs", "configurations"], "every model, every peak value and its standard deviation, every covering combination of settings",
     "Tests read PGA and a few PGVs; the refusals and the remaining combinations are not read.",
     MODELS, [("peak values", "model.py:GroundMotionModel.pga, pgv, pgd, ln_std_pga")],
     "exception-path (availability) analysis",
     ENG)
prop("C13", "Medians are positive and standard deviations are not negative",
     "Spectral accelerations, peak values, Fourier amplitudes, ratios and durations are positive, and standard deviations are not negative "
     "and not imaginary (NaN), for all inputs.",
     ["inputs"], "all real inputs (positive distances, velocities); every ordinate of every result",
     "Tests sample scenarios; logarithm/exponential or sign slips in rare branches are not sampled.",
     MODELS, [("results", "model.py:GroundMotionModel.spec_accels, ln_stds")],
     "sign analysis in the interval domain",
     ENG + "Results whose sign the intervals cannot bound are reported as undecided.")
prop("C17", "Interpolation between periods is faithful",
     "Interpolated spectra, standard deviations and ratios equal the tabulated value at a tabulated period, lie on the log-period line "
     "between neighbours, are NaN (never extrapolated silently) outside of the range where so defined, agree between the linear and logarithmic forms, honour the "
     "requested kind, and accept scalars, lists and arrays.",
     ["inputs"], "every interpolating method of every model; positions on, between and beyond the tabulated periods",
     "Tests interpolate one model at a handful of periods.",
     ["model.py", "gulerce_abrahamson_2011.py"],
     [("interpolation", "model.py:GroundMotionModel.interp_spec_accels, interp_ln_stds"), ("ratio", "gulerce_abrahamson_2011.py:interp_ratio")],
     "value-graph evaluation at abstract positions",
     ENG)
prop("C18", "A scenario carries exactly the inputs it was given",
     "A scenario holds every documented input unchanged (by key, attribute and get; False, zero and None included), refuses unknown names, reports "
     "missing ones as AttributeError/KeyError, and its copies are independent; a model gives the same results for a scenario, for its copies, for the inputs "
     "in another order or as keywords, with additional inputs that it does not use, and after the caller changed the scenario.",
     ["inputs", "configurations", "histories"], "every documented input and value; every model in every covering combination of settings; every way of passing the inputs",
     "Tests build complete scenarios in one way; a lost, aliased or order-dependent input shows only in the others.",
     ["model.py"] + MODELS,
     [("scenario container", "model.py:Scenario, Scenario.copy_with, Scenario.__getattr__"), ("selection of the inputs", "model.py:Model.__init__")],
     "value-flow analysis of the container and equality of value graphs", ENG)
FORM = ("Each value graph is compared with the published equations written down in sa/spec: by congruence, by splitting the input domain at every "
        "condition of both sides, and in polynomial normal form per region; disjoint intervals over a region refute. ")
prop("C30", "Median ground motions follow the published equations",
     "Every median spectral ordinate and median PGA, PGV and PGD of the ground-motion models is the value that the model's publication "
     "defines, for every magnitude, distance, site, mechanism, region and other setting, with given and with estimated inputs.",
     ["inputs", "configurations"], "all real inputs; every ordinate of every ground-motion model; every covering combination of categories and omitted inputs",
     "Reference values exist for a few scenarios of some models (1-2% tolerance) and for none of several models; branches (hanging wall, regions, "
     "distance and velocity breakpoints) are not sampled.",
     MODELS + ["atkinson_boore_2006.py", "abrahamson_gregor_addo_2016.py", "akkar_sandikkaya_bommer_2014.py", "campbell_2003.py",
               "coppersmith_bommer_2014.py", "derras_bard_cotton_2014.py", "hermkes_kuehn_riggelsen_2014.py",
               "pezeshk_zandieh_tavakoli_2011.py", "tavakoli_pezeshk_2005.py"],
     [("median", "*.py: _calc_ln_resp"), ("site response", "*.py: calc_site_term")],
     "translation to value graphs and symbolic equivalence with a declarative form",
     ENG + FORM)
prop("C31", "Standard deviations follow the published equations",
     "Every standard deviation (of each spectral ordinate, PGA, PGV and PGD) is the total standard deviation that the model's publication "
     "defines, in natural logarithm units, for every scenario.",
     ["inputs", "configurations"], "all real inputs; every ordinate of every ground-motion model; every covering combination of settings",
     "Several models have no reference standard deviation at all, others a few scenarios.",
     MODELS + ["atkinson_boore_2006.py", "abrahamson_gregor_addo_2016.py", "akkar_sandikkaya_bommer_2014.py", "campbell_2003.py",
               "coppersmith_bommer_2014.py", "derras_bard_cotton_2014.py", "hermkes_kuehn_riggelsen_2014.py",
               "pezeshk_zandieh_tavakoli_2011.py", "tavakoli_pezeshk_2005.py"],
     [("standard deviation", "*.py: _calc_ln_std")],
     "translation to value graphs and symbolic equivalence with a declarative form", ENG + FORM)
prop("C32", "Durations follow the published equations",
     "Every duration and duration uncertainty (all energy measures, normalized Arias intensities and plus/minus one standard deviation) is the value "
     "that the duration model's publication defines, for every scenario; arrays of scenarios give the value of each scenario.",
     ["inputs", "configurations"], "all real inputs; every region, mechanism and event type; scalars, lists and arrays",
     "Reference values cover a few scenarios of four models and none of Afshari & Stewart (2016) and Kempton & Stewart (2006).",
     ["abrahamson_silva_1996.py", "kempton_stewart_2006.py", "afshari_stewart_2016.py", "pinilla_ramos_et_al_2023.py", "pinilla_ramos_et_al_2024.py"],
     [("durations", "*.py: duration"), ("intensity increments", "abrahamson_silva_1996.py:interp"), ("arrays", "pinilla_ramos_et_al_2024.py:duration_model")],
     "translation to value graphs and symbolic equivalence with a declarative form", ENG + FORM)
prop("C33", "V/H ratios, conditional PGV and Fourier spectra are the published ones",
     "The vertical-to-horizontal ratios of Gulerce & Abrahamson (2011), the PGV conditioned on a spectral ordinate of Abrahamson & Bhasin (2020) and the "
     "Fourier amplitudes of Bayless & Abrahamson (2019), with their standard deviations, are the values that the publications define for every scenario.",
     ["inputs", "configurations"], "all real inputs; every frequency or period; every covering combination of settings",
     "A few scenarios are sampled for two of them and none for the third.",
     ["gulerce_abrahamson_2011.py", "abrahamson_bhasin_2020.py", "bayless_abrahamson_2019.py"],
     [("ratio", "gulerce_abrahamson_2011.py:GulerceAbrahamson2011"), ("conditional PGV", "abrahamson_bhasin_2020.py"), ("Fourier amplitudes", "bayless_abrahamson_2019.py")],
     "translation to value graphs and symbolic equivalence with a declarative form", ENG + FORM)
prop("C34", "Correlations and covariances follow the published equations",
     "For any set of periods or frequencies, in any order, the correlation between two ordinates is the published one (one on the diagonal, "
     "symmetric), and a covariance is the correlation times both standard deviations, the published or the supplied ones.",
     ["inputs"], "all positive periods/frequencies, ordered or not, as lists or arrays; every component and combination of supplied standard deviations",
     "Tests check a few pairs; one reference test is commented out.",
     ["baker_jayaram_2008.py", "bayless_abrahamson_2018.py", "stafford_2017.py"],
     [("correlations", "baker_jayaram_2008.py:calc_correls"), ("inter-frequency", "bayless_abrahamson_2018.py:BaylessAbrahamson2018.corr"), ("variance components", "stafford_2017.py")],
     "translation to value graphs and symbolic equivalence with a declarative form", ENG + FORM + "Arrays of three (quick) and four (thorough) ordinates stand for any size.")
prop("C35", "Conditional spectra follow from the conditional normal distribution",
     "The conditional mean spectrum and standard deviation equal the mean and standard deviation of the multivariate normal distribution given the conditioned "
     "ordinates: they reproduce the conditioned value with no deviation there, for one or several conditioning periods.",
     ["inputs"], "all spectra and standard deviations; every position of the conditioning periods (arrays of bounded length)",
     "One spectrum and one set of conditioning periods is sampled.",
     ["baker_jayaram_2008.py", "kishida_2017.py"],
     [("conditional mean spectrum", "baker_jayaram_2008.py:calc_cond_mean_spectrum"), ("vector conditioning", "kishida_2017.py:calc_cond_mean_spectrum_vector")],
     "translation to value graphs and symbolic equivalence with a declarative form", ENG + FORM + "Spectra of three to five periods, one or two conditioned ones.")
prop("C36", "Estimators of missing inputs follow the published relationships",
     "Each public estimator (basin depths, depth to top and bottom of rupture, hypocentral depth, rupture width, period of PGV) returns the published "
     "relationship for every argument, region and mechanism, whether optional arguments are given or omitted, and refuses what it cannot estimate.",
     ["inputs", "configurations"], "all real arguments; every region and mechanism; every way of giving the arguments",
     "Tests call six of the estimators at one or two values.",
     ["abrahamson_silva_kamai_2014.py", "chiou_youngs_2014.py", "campbell_bozorgnia_2014.py", "afshari_stewart_2016.py", "bayless_abrahamson_2019.py",
      "abrahamson_bhasin_2020.py"],
     [("basin depth", "campbell_bozorgnia_2014.py:calc_depth_2_5"), ("rupture geometry", "campbell_bozorgnia_2014.py:calc_width")],
     "translation to value graphs and symbolic equivalence with a declarative form", ENG + FORM)
prop("C37", "Site terms follow the published equations",
     "The public site terms give, for every period, reference motion (number, list or array, or none for the reference condition), site velocity, basin depth and "
     "region, the published linear, nonlinear and basin response; an omitted basin depth means the average one.",
     ["inputs", "configurations"], "all real arguments; every region; every ordinate",
     "Site terms are only exercised inside a few complete scenarios.",
     ["abrahamson_silva_kamai_2014.py", "boore_stewart_seyhan_atkinson_2014.py", "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py"],
     [("site terms", "boore_stewart_seyhan_atkinson_2014.py:calc_site_term")],
     "translation to value graphs and symbolic equivalence with a declarative form", ENG + FORM)
prop("C38", "Coefficients are the published ones",
     "Every coefficient that the package's tables and data files provide to its models, as loaded (columns, rows, units, "
     "header), is the published value for that period or frequency; so is the reference site velocity (V_REF) of each model.",
     ["inputs"], "every entry of every coefficient table and data file",
     "A changed digit in one row moves one ordinate by less than test tolerances, or is never evaluated.",
     ["model.py"],
     [("table loading", "model.py:load_data_file"), ("tables", "*.py: COEFF")],
     "comparison of the loaded data with a reference transcription",
     ENG + "The reference transcription (sa/spec/coeffs.json) was checked for outliers against neighbouring rows, not against the papers, which are not at hand.")
prop("C39", "Adjustments given to the subduction models take effect as defined",
     "The optional adjustments of Abrahamson, Gregor & Addo (2016) and Coppersmith & Bommer (2014) (magnitude break adjust_c1 as a number or one value per period, "
     "saturation adjust_c4, anelastic attenuation scale_atten) replace the defaults in the published equations, including the reference motion of the site term; "
     "zero is a value like any other, an adjustment left out is its default, and the model reports what it was given.",
     ["inputs", "configurations"], "all real adjustments, alone and together, as numbers and arrays; every ordinate; every covering combination of settings",
     "No test gives an adjustment other than the default.",
     ["abrahamson_gregor_addo_2016.py", "coppersmith_bommer_2014.py"],
     [("adjustments", "abrahamson_gregor_addo_2016.py:AbrahamsonGregorAddo2016.__init__")],
     "translation to value graphs and symbolic equivalence with a declarative form", ENG + FORM)
prop("C40", "Every model is offered by the package and told apart",
     "Every model class that the package's modules define can be imported from pygmm by name, is named in __all__ and is in pygmm.models exactly once "
     "(Hermkes et al., whose data are large, only from its own module); pygmm.models holds nothing else and __all__ names only what exists; "
     "every model has a full name and an abbreviation, neither empty nor shared with another model.",
     ["configurations"], "every model class in every module of the package",
     "Tests import the models they need, most of them from their modules; no test goes through the lists.",
     ["__init__.py", "model.py"],
     [("namespace", "__init__.py:models"), ("identity", "model.py:Model")],
     "interpretation of the package's namespace and class declarations",
     "Decided on the namespace that the interpreted __init__ leaves; what a model is comes from the classes found in all modules.")
prop("C91", "Shaking attenuates with distance and grows with magnitude",
     "At fixed other inputs the predicted median falls with distance and rises with magnitude over the recommended range.",
     ["inputs"], "every scenario in range", "Tests sample points.",
     MODELS, [("calculations", "*.py: _calc_ln_resp")],
     na="Monotonicity of transcendental expressions with tabulated coefficients quantifies over runtime values (and several published models oversaturate); no sound static argument in reach.")
prop("C92", "Covariance matrices are positive semi-definite and |correlation| <= 1",
     "Every correlation is within [-1, 1] and every covariance matrix used for simulation is positive semi-definite.",
     ["inputs"], "all frequency/period sets", "Tests check a few pairs.",
     ["baker_jayaram_2008.py", "bayless_abrahamson_2018.py", "kishida_2017.py"],
     [("correlation models", "baker_jayaram_2008.py:calc_correls")],
     na="An eigenvalue property of numeric matrices; no static argument bounds it. Symmetry and the unit diagonal are claimed separately where structural.")
