# ruff: noqa
I, H, C, S = "inputs", "histories", "configurations", "schedules"

prop("C01", "The parameter store keeps every value it was given, for every sample",
     "The store of sampled parameters returns, for each node, parameter and sample, exactly the value last stored there, and raises an error for unknown names. "
     "Every transformation (extracting or iterating over samples, copying, concatenating, converting to and from dictionaries and tables, updating from another store, filtering) preserves values, sample order and the scalar-or-array convention, and fixed values never change. "
     "A refused change leaves the store as it was, and a store never shares mutable data with a copy.",
     [I, H], "all parameter values; up to 3 nodes, 3 parameters and 3 samples; sequences of up to 3 operations; every choice of overwriting, fixing and copying",
     "The tests use a handful of literal stores; round trips, one-sample stores and refused operations in other combinations are not exercised.",
     ["graph_state.py"], [("set/get/extract/update/from_list/to_table", "graph_state.py")],
     "All paths of the bounded histories explored with symbolic values; trusts numpy/astropy table containers, which run concretely on symbolic cells.")

prop("C02", "Sampling a parameter graph evaluates each node once and consistently",
     "Sampling a model visits every reachable node exactly once per draw in dependency order, so every parameter that refers to another node holds that node's value in the same sample, however many nodes share it. "
     "Parameters given as constants, functions, other nodes or attributes yield the given value or the function of the values of its arguments; given values override them. "
     "The requested number of samples is returned, and sampling twice does not change the graph.",
     [I, H, C], "all constants and random draws; graphs of up to 6 nodes with chains, diamonds and shared nodes; 1 to 3 samples; repeated sampling; setter sources of every kind",
     "Tests check a few fixed chains; consistency under sharing needs every draw and graph shape.",
     ["base_models.py"], [("ParameterizedNode.sample_parameters / _sample_helper / set_parameter", "base_models.py"), ("FunctionNode.compute", "base_models.py")],
     "All paths over symbolic constants and draws on a family of graphs; scripted generators replace numpy's.")

prop("C03", "All randomness comes from the given generator or seed",
     "When a generator is given to a sampling or noise operation, every random draw it makes comes from that generator, for every kind of random node and for whole models; repeating with a generator in the same state reproduces the result exactly. "
     "A node created with its own seed reproduces its own draws after each reset and differs from the draws of other nodes only through its seed.",
     [I, H, C], "all values of the draws; 20 kinds of random nodes, 1 to 3 samples, whole models with effects and noise",
     "Tests seed a few nodes and compare numbers; a node that draws from elsewhere in one configuration goes unnoticed.",
     ["base_models.py", "math_nodes/np_random.py", "math_nodes/scipy_random.py", "math_nodes/given_sampler.py", "math_nodes/ra_dec_sampler.py", "math_nodes/distribution_sampler.py", "astro_utils/pzflow_node.py", "astro_utils/snia_utils.py", "astro_utils/noise_model.py", "effects/white_noise.py"],
     [("rng_info forwarding", "base_models.py")],
     "Draws are symbols labelled by their generator; results are compared term by term. Not covered: Bilby priors (documented to ignore the generator), the AGN random walk (see DESIGN), pzflow and sky-coordinate internals (stand-ins).")

prop("C04", "Value and table samplers return exactly the values they were given",
     "A sampler over a list or table returns only the given values: in order without skips across successive calls, or at the drawn index with the given weights, with the columns of one row kept together. "
     "Selectors return the value of the selected input and binary samplers return true exactly when the draw is below the probability. "
     "A sampler of a tabulated distribution maps a uniform draw through the inverse cumulative distribution, one of a density function draws each sample from the density with that sample's parameters, and none of them changes the data it was given.",
     [I, H], "all values, weights and draws; up to 4 values or rows; up to 3 successive calls of 1 to 3 samples",
     "Tests draw a few seeded samples and check ranges or frequencies.",
     ["math_nodes/given_sampler.py", "math_nodes/distribution_sampler.py"],
     [("GivenValueList/GivenValueSampler/GivenValueSelector/TableSampler/BinarySampler", "math_nodes/given_sampler.py"), ("DistributionSampler", "math_nodes/distribution_sampler.py"), ("SamplePDF/SampleLogPDF/NumericalInversePolynomialFunc", "math_nodes/scipy_random.py")],
     "All paths with symbolic values and draws; the interpolator and the sampler of densities are stand-ins with scipy's definition.")

prop("C05", "Math expression nodes compute their expression and accept nothing else",
     "A node built from a mathematical expression returns, for each sample, the value of that expression on the samples of its inputs, element-wise and the same under every numeric backend; whole numbers of any size are not rounded. "
     "Expressions that use anything beyond the permitted arithmetic and functions, or unknown names, are refused at construction.",
     [I, "programs"], "all input values; expressions over every permitted operator and function, 1 to 3 samples, three backends; a list of forbidden constructs",
     "Tests evaluate a few expressions at a few points.",
     ["math_nodes/basic_math_node.py"], [("BasicMathNode._prepare / compute", "math_nodes/basic_math_node.py")],
     "Each expression decided for all inputs; the permitted expressions form a finite list built from every operator and function.")

prop("C06", "Sky position samplers stay inside the requested region, uniformly",
     "Sampled positions are uniform on the sphere (right ascension and the sine of declination are affine in independent uniform draws) in the requested units. "
     "Samplers tied to a survey return the pointing and time of one of its rows, offset by at most the radius, uniformly in area and in every direction alike, and rejection samplers only return positions that were found inside the coverage unless the attempts ran out.",
     [I, C], "all draws; up to 3 pointings, radii given or taken from the table, 1 to 3 samples, up to 3 attempts",
     "Tests draw thousands of seeded positions and check ranges.",
     ["math_nodes/ra_dec_sampler.py"], [("UniformRADEC/ObsTableRADECSampler/ObsTableUniformRADECSampler/ApproximateMOCSampler", "math_nodes/ra_dec_sampler.py")],
     "All draws; sin/cos are uninterpreted with true facts; the coverage test and the sky-map library are stand-ins.")

prop("C07", "A position search finds exactly the pointings within radius and time window",
     "Searching a table of observations returns exactly the rows whose pointing lies within the radius on the sphere (including across the zero of right ascension and at the poles) and whose time lies in the closed window, alone or as one of several query points with shared or individual windows; with a detector footprint set, only the pointings whose footprint, at their own centre and rotation, covers the point remain. "
     "The observed-or-not question and the retrieval of column values agree with that search, also after rows were filtered out; the coverage map is made of one disc per row, with its pointing and the given or default radius; invalid queries are refused.",
     [I, C, H], "all radii up to 178 degrees, all times and windows; 7 pointings and 5 query points at the wrap and the poles; 4 row filters; pointings anywhere containing their own centre",
     "Tests use a few pointings and round radii.",
     ["obstable/obs_table.py"], [("range_search / is_observed / get_observations / _build_kd_tree", "obstable/obs_table.py")],
     "The radius, times and rotations are symbolic; directions are concrete except for the centre test; the footprint is a stand-in with a linear decision; scipy's KDTree is replaced by its contract (points within a distance).")

prop("C08", "Tables of observations keep rows, columns and constants consistent",
     "Columns are reachable under their standard and original names with the same values, constructor values override table metadata which overrides defaults, and per-band constants reach every row of their band unless the table has its own column. "
     "Filtering keeps exactly the selected rows in order with all their columns and updates the known filters; oversampling a pointing gives the requested time grid with alternating bands and prototype rows of the same band (the darkest one when asked). "
     "Random surveys have the requested number of pointings, uniform on the sphere, from the given seed. "
     "The table given by the caller is never changed, and invalid tables, names, constants and masks are refused.",
     [I, C, H], "all column values; up to 5 rows with unordered or repeated labels; all masks, a symbolic cut, index lists; dictionaries and data frames",
     "Tests use ordered labels, full columns and grid sizes that divide evenly.",
     ["obstable/obs_table.py", "obstable/fake_obs_table.py", "obstable/opsim.py"],
     [("ObsTable.__init__ / filter_rows / add_column / _assign_constant_if_needed", "obstable/obs_table.py"), ("oversample_opsim", "obstable/opsim.py")],
     "Symbolic cells in real data frames; pandas runs concretely on them. Saving to databases and files is C33.")

prop("C09", "Flux errors follow the noise model of the observation's own row",
     "The error of a flux is the square root of the summed source, sky, readout and dark-current variances in electrons, converted with the zero point, for each element; it is never below the photon noise of the source and grows with every contribution. "
     "Each survey applies it with the seeing, sky, exposure, zero point and detector values of exactly the row the flux belongs to, whatever the row order, labels or earlier filtering. "
     "Noise added to a flux is the error times a standard normal draw of the given generator.",
     [I, C], "all observing conditions, detector values and fluxes; 3 rows with unordered labels, index lists with repetition; simulated LSST, ZTF, Roman and simplified surveys",
     "Tests compare a few sampled conditions in one row order.",
     ["astro_utils/noise_model.py", "obstable/opsim.py", "obstable/ztf_obstable.py", "obstable/roman_obstable.py", "obstable/fake_obs_table.py"],
     [("poisson_bandflux_std / apply_noise", "astro_utils/noise_model.py"), ("bandflux_error_point_source", "obstable/opsim.py")],
     "All conditions symbolic; Roman's characterization tables (downloaded in production) are stand-ins.")

prop("C10", "Zero points reproduce the survey's depth and detection thresholds",
     "The zero point of an observation follows from its band, airmass and exposure time with the configured coefficients, row by row, and is taken from the table when the table has it. "
     "A zero point derived from a limiting magnitude makes a source at that magnitude a five-sigma detection for the configured detector. "
     "Detection efficiencies are a step at five sigma and a decreasing logistic in magnitude between 0 and 1.",
     [I, C], "all airmasses, exposure times, limits, sky levels and detector values; all bands; 2 or 3 rows with unordered labels",
     "Tests evaluate single observations at nominal detector values.",
     ["astro_utils/zeropoint.py", "obstable/opsim.py", "obstable/ztf_obstable.py", "astro_utils/obs_utils.py"],
     [("flux_electron_zeropoint / calculate_zp_from_maglim", "astro_utils/zeropoint.py")],
     "log10 and powers of ten are uninterpreted with true facts (inverse, monotone, product lemmas); five sigma up to 1e-3 (rounded footprint constant in the code).")

prop("C11", "Photometric unit conversions are exact inverses in every unit",
     "Magnitudes and bandfluxes convert into each other exactly inversely and monotonically with the AB zero point, and per-wavelength and per-frequency flux densities convert by the square of the wavelength over the speed of light in whatever units are requested. "
     "Conversions keep the shape, apply each row's own wavelengths when given, and refuse mismatched sizes.",
     [I, C], "all magnitudes in [-5,40], fluxes in [1e-3,1e6], wavelengths in [0.1,3e4]; all supported unit combinations; 1-d and 2-d arrays",
     "Tests use single values or seeded samples in one unit system.",
     ["astro_utils/mag_flux.py", "astro_utils/unit_utils.py"], [("mag2flux/flux2mag", "astro_utils/mag_flux.py"), ("flam_to_fnu/fnu_to_flam", "astro_utils/unit_utils.py")],
     "All values; powers of ten are uninterpreted with true facts; astropy unit scales run concretely.")

prop("C12", "Redshift maps rest frame to observer frame sample by sample",
     "For each sample with redshift z and reference time t0, the observed flux density at time t and wavelength w is (1+z) times the rest-frame flux density at t0+(t-t0)/(1+z) and w/(1+z). "
     "Models without a redshift, with redshift zero, or with redshift switched off are unchanged, and a redshifted model without a reference time is refused. "
     "The redshift may come from another object, and the distance is the luminosity distance (in parsecs) of each sample's own redshift unless it is given.",
     [I, C], "all redshifts in [0,10], reference times, times and wavelengths; 1 to 3 samples; redshift given, linked, off or zero",
     "Tests use one redshift and compare a few points.",
     ["astro_utils/redshift.py", "models/physical_model.py"], [("obs_to_rest_times_waves / rest_to_obs_flux", "astro_utils/redshift.py"), ("SEDModel._evaluate_single", "models/physical_model.py")],
     "A model with bilinear flux in time and wavelength; the cosmology and its units are a stand-in during the search, and astropy's in the replay.")

prop("C13", "The observed flux applies effects in order, in their frame, per sample",
     "The flux of a model at a sample is its own rest-frame flux at that sample's parameters, then its rest-frame effects in the order added on rest-frame times and wavelengths, then the redshift, then its observer-frame effects in the order added on observer times and wavelengths. "
     "Each effect receives the sample's parameter values and the given generator, parameters it shares with the model keep one value, and evaluating many samples equals evaluating them one by one. "
     "Models defined by band fluxes apply their effects in order to the band fluxes; extra arguments reach the model and the inputs are not changed.",
     [I, C], "all parameters, times and wavelengths; 3 effects in 4 arrangements of frames; 1 to 3 samples; models of flux densities and of band fluxes",
     "Tests use single multiplicative effects, which commute and hide order and frame.",
     ["models/physical_model.py", "effects/effect_model.py"], [("SEDModel._evaluate_single / evaluate_sed / add_effect", "models/physical_model.py"), ("BandfluxModel", "models/physical_model.py")],
     "Affine effects that depend on time, wavelength and two parameters, so that order and frame are visible in the result.")

prop("C14", "Outside its wavelength range a model is extrapolated as chosen, and only there",
     "Inside the valid range of wavelengths (in the model's rest frame and for each sample) the flux is the model's own. "
     "Outside it the flux is zero unless an extrapolation was chosen, which then continues the flux at the nearest edge at the same time: a constant, the last value, a linear decay to zero over a width, or an exponential decay with the distance in wavelength. "
     "The model is never evaluated outside its range, either limit may be missing, and invalid settings are refused.",
     [I, C], "all wavelengths in any order, limits, times, widths and rates; 5 extrapolations with and without redshift; limits per sample",
     "Tests check one grid that straddles both limits.",
     ["models/physical_model.py", "utils/wave_extrapolate.py"], [("SEDModel.compute_sed_with_extrapolation", "models/physical_model.py"), ("WaveExtrapolationModel and subclasses", "utils/wave_extrapolate.py")],
     "All paths over 2 times and 2 or 3 wavelengths.")

prop("C15", "A band flux is the normalized transmission-weighted integral of the flux density",
     "The band flux is the trapezoidal integral of flux density times transmission over wavelength, normalized so that a constant flux density gives exactly that value, for every time and sample, whatever the units, scale, resampling step or trimming of the transmission table. "
     "Processing resamples linearly on an even grid over the full range, averages duplicate wavelengths, trims only the tails up to the requested quantile (to within a grid step), and always starts from the loaded table. "
     "The given table is never changed, and unordered, empty or dark tables, bad units and quantiles and mismatched grids are refused.",
     [I, C], "all transmissions and flux densities; 5 wavelength grids and steps, any wavelengths as loaded; 3 to 6 table rows; trimming at 1% to 40%",
     "Tests use grids that the step divides and compare with the same formula on given numbers.",
     ["astro_utils/passbands.py"], [("Passband.process_transmission_table / fluxes_to_bandflux", "astro_utils/passbands.py")],
     "All values on small tables; scipy's degree-1 spline and trapezoid rules are stand-ins with their definition.")

prop("C16", "A group of passbands gives each passband its own columns and names",
     "The wavelengths of a group are the increasing union of those of its passbands, without (near) duplicates, and the band flux computed from a matrix on that grid equals the one computed by the passband itself on its own wavelengths, however the grids overlap. "
     "Passbands are found by full name or by unambiguous filter name, selections keep exactly the requested ones and refuse missing ones, and masks mark exactly the known filters. "
     "Adding, replacing or reprocessing passbands updates grid and names; files, directories, presets and SVO filters give the tables of their own files in Angstrom.",
     [I, C, H], "all transmissions and flux densities; 4 arrangements of up to 3 passbands in any order, a second passband at any offset; 4 passbands with shared names",
     "Tests check the size of the grid and one overlapping arrangement.",
     ["astro_utils/passbands.py"], [("PassbandGroup._update_waves / fluxes_to_bandfluxes / __getitem__", "astro_utils/passbands.py")],
     "All paths; loading of files runs on concrete tables written by the check.")

prop("C17", "Each light-curve entry uses its own time, filter and sample parameters",
     "Evaluating band fluxes returns, for entry k of sample i, the band flux of the model with the parameters of sample i at time k in filter k, whatever the order of the filters, with full or short names, for one passband or a group. "
     "The generator given is the one used, inputs are unchanged, and missing, unknown or too few filters are refused.",
     [I, C], "all times, parameters and transmissions; 3 passbands, 2 to 4 times, 5 filter sequences, 1 to 3 samples, with and without redshift",
     "Tests compare one light curve with its own pieces, with filters in one order.",
     ["models/physical_model.py", "astro_utils/passbands.py"], [("BasePhysicalModel.evaluate_bandfluxes / SEDModel._evaluate_bandfluxes_single", "models/physical_model.py")],
     "A model with bilinear flux; all paths.")

prop("C18", "Every row of a simulated light curve belongs to its sample and observation",
     "A simulation returns one row per sample with that sample's parameters and, nested, exactly the observations of each survey that cover its position inside its time window (and the model's mask), once each. "
     "Each nested row has the time, filter, survey and saved columns of its observation, the noise-free flux of that sample at that time and filter, the error of that observation at that flux, and a flux that is the noise-free flux plus the error times a draw of the given generator. "
     "All randomness (parameters, effects, noise) comes from the given generator, so repeating it repeats the result; noise-free light curves are on the requested rest-frame phases mapped to observer times.",
     [I, C], "all observation times, source parameters, windows, error factors and draws; 1 to 3 samples, 1 or 2 surveys of 2 or 3 observations with unordered labels; 4 time windows, masks",
     "Tests check lengths, columns and non-zero values of seeded simulations.",
     ["simulate.py", "models/physical_model.py", "obstable/obs_table.py"], [("simulate_lightcurves / compute_noise_free_lightcurves", "simulate.py")],
     "The nested table container and the spatial index are stand-ins in the symbolic run; counterexamples replay with the real ones.")

prop("C19", "Light curve templates return the given curve at the shifted time",
     "A model built from light curves gives, for each sample, time and filter, the linear interpolation of that filter's curve at the time since the sample's reference time, the baseline (zero by default) outside its range, and the periodic continuation if it is periodic. "
     "Curves given as dictionaries, arrays or survey library tables, in fluxes or magnitudes, integers or floats, give the same model, and what was passed in is not changed; unsorted, incomplete or wrongly shaped input is refused. "
     "With several curves each sample uses the one selected for it, with its own reference time and baseline, and the spectrum of a model, seen through a passband, is the light curve of that passband.",
     [I, C], "all times, values, baselines, reference times and queries; 1 to 3 filters with 2 or 3 points each, up to 3 curves and 2 samples; every input form",
     "Tests interpolate a few fixed curves; input forms, baselines and reference times are not combined.",
     ["models/lightcurve_template_model.py"], [("LightcurveData / LightcurveTemplateModel / MultiLightcurveTemplateModel", "models/lightcurve_template_model.py")],
     "All paths; astropy tables are stand-ins in the symbolic run; queries are kept away from the points of the curve by 1e-3.")

prop("C20", "Text files of curves and grids are read back as written",
     "Reading a survey light curve library returns one table per event, in order, with exactly the rows between its start and end, the values of its columns, and the metadata of the file and of that event only, whatever comments, documentation blocks, blank lines and headers surround them; inconsistent files are refused. "
     "Reading a grid of values returns each value at its two coordinates, for any spacing, and incomplete or unordered grids are refused when validation is requested; models made from such a file, or from a file of a spectrum, are those made from its numbers.",
     [I, C], "all numbers in the files; up to 3 events of 1 or 2 rows with optional parts in every combination; grids of 2 by 3 values",
     "Tests read one sample file of each kind.",
     ["utils/io_utils.py", "models/lightcurve_template_model.py"], [("_read_lclib_data_from_open_file / read_grid_data", "utils/io_utils.py")],
     "The real reader on files whose numbers are symbolic tokens; number syntax itself is python's.")

prop("C21", "Models of several objects combine exactly their objects, sample by sample",
     "An additive model's flux is the weighted sum of its objects' fluxes, each with its own parameters, redshift and rest-frame effects, followed by the observer-frame effects on the sum; a random model's flux in each sample is that of the object selected for that sample, whatever the objects' names. "
     "This holds for spectra and band fluxes, for objects known only in bands, for nested combinations and shared parameters; the wavelength range reported is that of the objects; the given generator reaches every object; and redshifting is switched on or off for all objects together.",
     [I, C, H], "all parameters, weights, times and wavelengths; 2 or 3 objects, 1 or 2 samples (3 in the thorough run), one level of nesting",
     "Tests evaluate a few constant objects.",
     ["models/multi_object_model.py"], [("AdditiveMultiObjectModel / RandomMultiObjectModel", "models/multi_object_model.py")],
     "Objects with bilinear flux; all paths; rounding allowed at 1e-5.")

prop("C22", "Bicubic interpolation returns the grid's values and the cubic between them",
     "Interpolating a grid at any list of coordinates returns, for every pair in order, the grid value at a node, zero outside of the grid, the bilinear value in the outermost cells and the cubic convolution of the 16 surrounding values in every other cell, for regular and irregular steps; grids whose axes are unsorted or do not match the values are refused.",
     [I, C], "all grid values at fixed places and all places along either axis at fixed values (both in the thorough run); grids from 3x5 to 5x5, every cell",
     "Tests compare a few points of one function to tolerance.",
     ["utils/bicubic_interp.py"], [("BicubicInterpolator / BicubicAxis", "utils/bicubic_interp.py")],
     "jax's compilation and vectorisation are replaced by loops with its clamped indexing; exact arithmetic instead of float32.")

prop("C23", "Post-processing adds per-observation quantities that belong to each observation",
     "The signal to noise ratio, magnitude and magnitude error added to each observation are those of its own flux and error and are missing exactly where flux or error is not positive; an observation is a detection exactly when its ratio exists and reaches the minimum; the relative time is its time minus the reference time of the light curve's own row, whatever the row labels and however many observations the other rows have. "
     "Nothing else in the table changes, rows without observations stay empty (or are exactly those dropped when asked), and tables without the needed columns are refused.",
     [I, C, H], "all fluxes, errors, times, reference times and minima; single light curves of 1-3 observations, 3 rows of 0-2 observations with 4 kinds of row labels",
     "Tests augment one small result with default labels.",
     ["utils/post_process_results.py"], [("results_augment_lightcurves / augment_single_lightcurve", "utils/post_process_results.py")],
     "The nested table and masked arrays are replaced by stand-ins with the same access semantics.")

prop("C24", "Dimming, noise, dust and lensing follow their definition for each sample",
     "Dimming multiplies the flux by its fraction; white noise adds one draw of the given generator per entry times the sample's sigma; extinction multiplies by the law's transmission for the sample's E(B-V) at the wavelength in the chosen frame; microlensing multiplies by the point-lens magnification at the observer's time, with the given probability, the same for all wavelengths. "
     "Spectra and band fluxes follow the same rule, the parameters sampled for one sample never affect another, and missing parameters are refused.",
     [I, C, H], "all parameters, times and fluxes (two fixed wavelengths for dust and lensing); 1 or 2 samples (3 in the thorough run), redshifts 0, 0.5 and 1",
     "Tests apply each effect to a constant with one parameter set.",
     ["effects/basic_effects.py", "effects/white_noise.py", "effects/extinction.py", "effects/microlensing.py"],
     [("apply / apply_bandflux of the effects", "effects"), ("_apply_effects in evaluate_sed", "models/physical_model.py")],
     "The magnification of VBMicrolensing is replaced by the point-lens formula, replayed against the library itself; dust laws by their values at fixed wavelengths.")

prop("C25", "The built-in simple models evaluate their formula for each sample's parameters",
     "Constant, step, sine, linear, tabulated-spectrum, tabulated-band, Gaussian galaxy and spline models return, for every sample, time and wavelength in any order, the value of their documented formula with that sample's parameters, reference time and redshift, and zero outside of the wavelengths they cover. "
     "Models choosing among tables use only tables with a weight, report the wavelength range of the chosen one, and refuse malformed tables and unknown filters.",
     [I, C], "all parameters, times, wavelengths and table values (fixed positions and radii for galaxies, fixed nodes for splines); 1 or 2 samples (3 in the thorough run)",
     "Tests evaluate a few grids with hand-picked parameters.",
     ["models/basic_models.py", "models/static_sed_model.py", "models/galaxy_models.py", "models/spline_model.py"],
     [("compute_sed of the models", "models/basic_models.py"), ("StaticSEDModel / StaticBandfluxModel", "models/static_sed_model.py"), ("GaussianGalaxy", "models/galaxy_models.py"), ("SplineModel", "models/spline_model.py")],
     "Splines of degree one, with scipy's evaluation replaced by bilinear interpolation and replayed against scipy.")

prop("C26", "Supernova relations give each sample the documented quantity",
     "Host masses, stretch densities, Tripp distances and peak magnitudes, distance moduli, event counts per redshift bin, SALT2 colour laws and fluxes, and offsets of a supernova from its host equal their documented formula, evaluated for each sample with that sample's own redshift, host and parameters, for one or many samples.",
     [I, C], "all masses, stretches, colours, redshifts, areas, colour coefficients and separations within physical ranges; 1 or 2 samples (3 in the thorough run)",
     "Tests compare a few values, mostly of a single sample.",
     ["astro_utils/snia_utils.py", "models/salt2_jax.py", "astro_utils/salt2_color_law.py", "models/snia_host.py"],
     [("relations of type Ia supernovae", "astro_utils/snia_utils.py"), ("SALT2JaxModel.compute_sed", "models/salt2_jax.py"), ("SALT2ColorLaw", "astro_utils/salt2_color_law.py")],
     "Cosmology, normal density and SkyCoord are stand-ins during the search and the real astropy and scipy when replayed; templates are planes.")

prop("C27", "Periodic sources repeat, and eclipses remove the covered light",
     "A periodic source is evaluated at the fraction of its period that passed since t0, in [0, 1), for every time, period and redshift, so it repeats after each period; a variable star's flux is its luminosity density over the squared distance, in nJy. "
     "An eclipsing binary shows both black bodies, less the part of the disc behind that is covered at the phase's projected separation, and is never darker than nothing nor brighter than both.",
     [I, C], "all times, periods, reference times, radii, temperatures, inclinations and phases (seven phases, three inclinations and two orbits for the covered area); 1 or 2 samples (3 in the thorough run)",
     "Tests compare one light curve with rough expectations and the area with random points.",
     ["models/periodic_model.py", "models/periodic_variable_star.py", "astro_utils/black_body.py"],
     [("PeriodicModel.compute_sed", "models/periodic_model.py"), ("PeriodicVariableStar / EclipsingBinaryStar", "models/periodic_variable_star.py"), ("black_body_luminosity_density_per_solid", "astro_utils/black_body.py")],
     "Black bodies are a linear stand-in during the search and Planck's law when replayed; arccos is uninterpreted, with the bounds of the overlap given as facts.")

prop("C28", "Wrapped sources and priors get each sample's own parameters",
     "A source of sncosmo or redback is evaluated for every sample with that sample's parameters, reference time and redshift (redback redshifts itself), its flux density per wavelength is converted to nJy, and beyond its own wavelengths, which may depend on the parameters, it is extrapolated or zero; parameters set on an sncosmo wrapper are used from then on, and it covers the times strictly inside its stretched phases. "
     "Parameters of a redback model are given or come from a prior, never from both. A flow of pzflow is sampled once per draw of the graph, each sample a row drawn given that sample's own conditions. A bilby prior is sampled once per draw of the graph, its correlated parameters stay together under their own names, constraints are obeyed and not drawn, and the given prior is used as it is. A synphot spectrum becomes a static model with the energy of its photons.",
     [I, C], "any parameters, reference times and fluxes, two times and one or two wavelengths of any value; 1 or 2 samples (3 in the thorough run)",
     "Tests run one source of each package, at wavelengths it covers.",
     ["models/sncomso_models.py", "models/redback_models.py", "math_nodes/bilby_priors.py", "models/static_sed_model.py", "astro_utils/pzflow_node.py"],
     [("SncosmoWrapperModel", "models/sncomso_models.py"), ("RedbackWrapperModel", "models/redback_models.py"), ("BilbyPriorNode.compute", "math_nodes/bilby_priors.py"), ("StaticSEDModel.from_synphot", "models/static_sed_model.py")],
     "The other packages are stand-ins with a flux linear in phase and wavelength, and known draws; synphot's unit conversion is a stand-in during the search and the real one when replayed.")

prop("C29", "An AGN varies by a damped walk around its own accretion disk",
     "Every sample's masses, accretion rate, luminosity, magnitude and variability are computed from that sample's black hole mass and Eddington ratio, with an inclination between face-on and edge-on. Its flux is that of a thin disk of black-body rings from the inner edge outwards, seen at its distance and inclination, times the magnitudes of a damped random walk: the walk starts at t0, moves all wavelengths by the same draws, forgets with each wavelength's time scale since the previous time, and refuses times that do not increase. "
     "Amplitude and time scale at 4000 Angstrom are those given, and scale with the rest-frame wavelength.",
     [I, C], "any masses, ratios, distances, times, draws, wavelengths and frequencies; three time steps, two wavelengths; 1 or 2 samples (3 in the thorough run)",
     "Tests compare a few numbers of the helper functions with the code's own output, and check that fluxes are positive.",
     ["models/agn.py", "astro_utils/agn_utils.py"],
     [("AGN", "models/agn.py"), ("sample_damped_random_walk", "models/agn.py"), ("eddington_ratio_dist_fun", "astro_utils/agn_utils.py")],
     "scipy's quad is a stand-in during the search (the integrand and limits are checked) and real when replayed; the disk and the walk are stand-ins in the check of their combination. Times lie after t0.")

prop("C30", "A BayeSN supernova follows its template, its shape and its dust",
     "The flux of every sample is the template at the rest-frame phase and wavelength, dimmed by the shape W0 + theta W1, by A(V) magnitudes of dust with the extinction law of the sample's R(V), and scaled by its amplitude. The template is the natural cubic spline of its table along each phase and each wavelength of the table, passes through the table and does not jump between its cells; the shape is the natural cubic spline of its knots in both directions. "
     "The model covers the times strictly inside 20 days before to 50 days after t0, stretched by the redshift.",
     [I, C], "tables of 4 x 4 and 5 x 4 of any values on uneven knots, any time or wavelength inside the knots, any theta, A(V) and amplitude; 1 or 2 samples (3 in the thorough run)",
     "The one test compares 32 numbers with 10% tolerance, which missed that R(V) was ignored and that the template's spline left its table.",
     ["models/bayesn.py"],
     [("BayesnModel.compute_sed", "models/bayesn.py"), ("evaluate_2d_cubic_spline", "models/bayesn.py"), ("natural_cubic_spline_basis_matrix_from_invkd", "models/bayesn.py")],
     "The files are replaced by small tables; scipy's natural splines are the oracle. Outside of the knots nothing is claimed (the code continues the last cubic). R(V) comes from a list, because the extinction law is evaluated by its package; where wavelengths are symbolic there is no dust.")

prop("C31", "Dust along the line of sight is the map's at the sample's own position",
     "A dust node hands every sample the value of its map (any function of a position, a dustmaps map with or without a rescaling function, a map of two hemispheres, or the SFD map) at that sample's own right ascension and declination, whether the position is fixed, listed or comes from another node, and a model behind it is dimmed by that value. The position is required. The SFD files are read from the folder given; missing files are fetched into it or reported. "
     "A node of one variable hands out the values it is given under its name.",
     [I, C], "1 and 2 samples (to 4 in the thorough run) at any position, any values",
     "The tests query a few points and constants.",
     ["astro_utils/dustmap.py", "math_nodes/single_value_node.py"],
     [("DustmapWrapper.compute_ebv", "astro_utils/dustmap.py"), ("ConstantHemisphereDustMap.compute_ebv", "astro_utils/dustmap.py"), ("SFDMap", "astro_utils/dustmap.py"), ("SingleVariableNode", "math_nodes/single_value_node.py")],
     "The maps are linear stand-ins, sfdmap2's reader and the downloader as well; SkyCoord only holds the position.")

prop("C32", "A detector footprint judges each point in the frame of its own pointing",
     "DetectorFootprint.contains tells for every point whether it lies in the footprint's region after moving to the frame of that point's own centre and rotation (one centre or rotation may serve all points; no rotation is zero), with longitudes counted from -180 to 180 degrees, and divided by the pixel scale or mapped by the WCS given. A survey's observations are found when its footprint, at the survey's pixel scale in arcseconds, covers the query. A rectangle's width lies along the longitude, its height along the latitude, around the centre. A scalar point gets a scalar answer; numbers of points, centres and rotations that do not match are refused, and so are missing or non-positive scales and regions not around the centre.",
     [I, C], "1 and 2 points (3 in the thorough run) with any positions, centres, rotations from 0 to 90 degrees; a rectangle of any size; two scales",
     "The tests probe a few points on two rectangles without mixing centres and rotations.",
     ["astro_utils/detector_footprint.py", "obstable/obs_table.py"],
     [("DetectorFootprint.contains", "astro_utils/detector_footprint.py"), ("DetectorFootprint.rotate_to_center", "astro_utils/detector_footprint.py"), ("DetectorFootprint.from_rect", "astro_utils/detector_footprint.py")],
     "The spherical rotation, the TAN projection and the regions are astropy's: they are replaced by functions of all five angles, linear maps and rectangles, so only what is handed to them is decided.")

prop("C33", "What is stored reads back as it was written",
     "Sampled parameters saved to a file and read back are equal to the samples that were saved, for one sample or many: the same nodes and names in order and the same numbers, vectors, whole numbers, words (empty ones too), truth values and missing values, so a model evaluated with them gives the same fluxes; states compare as equal exactly when those values agree (numbers up to rounding). "
     "Arrays written in any of the supported formats can be read with all digits. Tables of observations of every survey written to a database or a parquet file, whole or filtered, once or repeatedly, read back with the same rows, columns, filters and noise, and parquet files with the same survey values. "
     "Existing files are not overwritten unless asked, unknown files and formats are refused, and downloads happen only when the file is missing or forced, into its own place, with failures reported and the old file kept; a forced download replaces the old file.",
     [I, C, H], "all numbers; 1 to 3 samples and 7 kinds of parameters; 6 array formats; plain, LSST, ZTF and simplified tables of 4 rows, up to 3 rounds",
     "Tests store three samples of numbers and one plain table once.",
     ["graph_state.py", "utils/io_utils.py", "utils/data_download.py", "obstable/obs_table.py", "obstable/ztf_obstable.py", "obstable/fake_obs_table.py"],
     [("GraphState.save_to_file / from_file / to_table / from_table / __eq__", "graph_state.py"), ("read_numpy_data / write_numpy_data", "utils/io_utils.py"), ("ObsTable.write_db / from_db / write_parquet / from_parquet", "obstable/obs_table.py"), ("download_data_file_if_needed", "utils/data_download.py")],
     "The file formats are astropy's, numpy's, pandas' and sqlite's: they are replaced by stores that keep types and names as those formats do, and each explored path is replayed with the real files. Roman tables (built from survey plans) and detector footprints are not stored by the code.")

FIXED = {
 "fix: apply no time window to several samples of a model without t0": ("C18", "several samples of a model without t0 raised an error when a time window was given"),
 "fix: save parameter columns of a single sample whose value is an array": ("C18", "a saved parameter whose value is a vector raised an error for one sample"),
 "fix: update all samples from a state with a single sample of any value": ("C01", "missing values raised an error, vectors as long as the number of samples were spread over the samples"),
 "fix: copy the array values of a state with a single sample": ("C01", "a copy shared the vectors of the original"),
 "fix: join single samples whose values are arrays": ("C01", "joining states of one sample raised an error for vectors, or kept only the first component"),
 "fix: scale bicubic grids given as whole numbers": ("C20", "a grid file whose values are whole numbers could not be read"),
 "fix: save graph states with a single sample": ("C33", "the table of a state with one sample was empty, so it could not be read back"),
 "fix: compare graph states with strings, missing values and vectors": ("C33", "comparing states with words or missing values (the distance of every model without a cosmology) raised an error, vectors of other lengths matched by broadcasting"),
 "fix: keep empty strings of a saved graph state": ("C33", "an empty word was read back as 0"),
 "fix: read the .dat files that write_numpy_data writes": ("C33", "written .dat files were refused by the reader"),
 "fix: do not add an index column when a table is written to a database": ("C33", "each round added a column and the third one failed"),
 "fix: is_observed for a list of declinations at one right ascension": ("C07", "the answer was always yes"),
 "fix: keep the survey values stored in a parquet file": ("C33", "the defaults of the constructor replaced the stored read noise and dark current"),
 "fix: keep the constant flux errors of a stored FakeObsTable": ("C33", "constant errors were lost when the table was stored"),
 "fix: read back ZTF tables made from dates": ("C33", "a stored table made from dates was refused"),
 "fix: accept the units and forced downloads of the Roman preset": ("C16", "the documented units and forced downloads raised errors"),
 "fix: accept passband tables of whole numbers": ("C15", "averages of duplicate wavelengths were truncated in tables of integers, which were refused in nm"),
 "fix: average all transmissions given for the same wavelength": ("C15", "of three transmissions at a wavelength the last was ignored"),
 "fix: offset sampled pointings given as whole numbers": ("C06", "tables with integer positions raised an error"),
 "fix: center the default detector footprint on the pointing": ("C32", "a pixel region lay half a pixel off its pointing"),
 "fix: convert the survey's pixel scale to degrees for the detector footprint": ("C32", "the survey's arcseconds per pixel were used as degrees, so pixel regions were 3600 times too large"),
 "fix: use the Rv parameter of the BayeSN model in its extinction law": ("C30", "R(V) was ignored, so A(V) was not the extinction in V"),
 "fix: pass the 2D spline of the BayeSN model through its knots": ("C30", "the template's spline did not pass through its table"),
 "fix: use the curvature at the queried phase in the 2D spline of the BayeSN model": ("C30", "the curvature along wavelengths was that of the phase before, so the flux jumped at each phase of the table"),
 "fix: fetch a file anew when a forced download finds an old copy": ("C33", "a forced download kept the old file, because pooch trusts a file that it has no hash of"),
 "fix: drop the empty lightcurves that are not missing": ("C23", "results_drop_empty kept rows whose light curve was empty but not missing, as after adding the derived columns"),
 "fix: name the nodes added to a graph that was sampled before": ("C02", "two new nodes of the same kind below a node that was not the root shared a name, and sampling was refused"),
 "fix: include the objects of a multi-object model in its dependency graph and gradient inputs": ("C21", "the parameters of the objects were missing from the dependency graph and the gradient inputs"),
 "fix: keep the given PriorDict of a BilbyPriorNode": ("C28", "a PriorDict was rebuilt as a plain one, which lost its conditions and constraints"),
 "fix: extrapolate redback models outside of the wavelengths of their result": ("C28", "wavelengths outside of the result's range recursed without end"),
 "fix: draw from bilby priors with constraints": ("C28", "a prior with a Constraint raised a KeyError"),
 "fix: evaluate a model without a graph state when given extra keyword arguments": ("C13", "extra arguments raised a TypeError when the model had to sample its parameters"),
 "fix: evaluate a spline model at times in any order": ("C25", "unsorted times or wavelengths raised an error"),
 "fix: compare the distance and the radius of a galaxy in the same unit": ("C25", "a distance in radians was compared with a radius in degrees"),
 "fix: accept the keyword arguments of evaluate_sed in the static model": ("C25", "extra keyword arguments raised a TypeError"),
 "fix: compute the relative times when a t0 is zero": ("C23", "no relative times were added when a reference time was zero"),
 "fix: compute the relative times with the t0 of the light curve's own row": ("C23", "row labels that are not positions gave the reference time of another row, or an error"),
 "fix: mark observations without a signal to noise ratio as not detected": ("C23", "fluxes that are not positive raised a TypeError"),
 "fix: do not overwrite the caller's baseline dictionary of a light curve": ("C19", "the baseline dictionary passed in was converted to fluxes in place"),
 "fix: keep the default baseline at zero flux for light curves in magnitudes": ("C19", "without a baseline, curves in magnitudes had a baseline of the flux of magnitude zero"),
 "fix: accept light curves given as integer arrays without truncating them": ("C19", "integer arrays raised a casting error or had fluxes truncated"),
 "fix: index the passband's own wavelengths when building the light curve SED basis": ("C19", "wavelengths that differ by rounding marked the next column"),
 "fix: do not carry the metadata of one LCLIB event over to the next": ("C20", "metadata of one event appeared in later events"),
 "fix: toggle the redshift of every object of a multi-object model": ("C21", "set_apply_redshift only reached the band flux objects, which refuse it"),
 "fix: look up the selected object by name for its wavelength limits": ("C21", "minwave and maxwave of a random model raised a TypeError"),
 "fix: give each object of a random multi-object model its own name": ("C21", "unlabelled objects of the same class shared a name, so the last one was always used"),
 "fix: sample the objects of nested multi-object models": ("C21", "nested models raised a KeyError"),
 "fix: pass the keyword arguments of evaluate_sed on when extrapolating": ("C13", "extra arguments did not reach the model when a wavelength was out of range"),
 "fix: query models with a single wavelength limit only inside their range": ("C14", "a model with only a lower limit was evaluated below it when all wavelengths were below"),
 "fix: average all the values a transmission file gives for a wavelength": ("C16", "of three values in a file for a wavelength one was ignored and one counted twice"),
    "fix: average duplicate wavelengths of transmission tables": ("C15", "tables with duplicate wavelengths raised a TypeError"),
 "fix: integrate bandfluxes with the actual step of the wavelength grid": ("C15", "a constant flux density gave another band flux when the step does not divide the range of the passband"),
 "fix: report passbands without transmission with a ValueError": ("C15", "a table without transmission raised an AttributeError"),
 "fix: use the right columns for merged wavelengths in PassbandGroup": ("C16", "wavelengths that differ by rounding used the next column of the flux matrix, or raised an error"),
 "fix: load passbands from a relative directory path": ("C16", "relative directories could not be loaded"),
 "fix: accept both names of a passband in the filters of a PassbandGroup": ("C16", "a selection naming a passband by both names was refused"),
 "fix: evaluate the models of a simulation with the given random number generator": ("C18", "random effects of a model ignored the given generator, so simulations were not reproducible"),
 "fix: raise KeyError for an unknown parameter of a single-node GraphState": ("C01", "looking up an unknown parameter in a store with one node returned nothing instead of an error"),
 "fix: store scalars when concatenating to a single-sample GraphState": ("C01", "concatenating to a single sample left arrays of length one instead of scalars"),
 "fix: leave the GraphState unchanged when a set is refused": ("C01", "a refused value of the wrong length left the node behind"),
 "fix: sample single-column tables in TableSampler": ("C04", "tables with one column could not be sampled"),
 "fix: use the given random number generator in DistributionSampler": ("C03", "the given generator was ignored"),
 "fix: return scalars for a single sample of ObsTableRADECSampler with a radius": ("C06", "a single sample with a radius gave arrays of length one"),
 "fix: allow a single sample of a conditional PZFlowNode": ("C03", "a conditional flow could not draw a single sample"),
 "fix: draw the SN position angle from the given random number generator": ("C03", "the position angle came from the global generator"),
 "fix: evaluate max and min of BasicMathNode element-wise": ("C05", "max and min of arrays were not evaluated per sample"),
 "fix: copy the weights of GivenValueSampler before normalizing them": ("C04", "the caller's weights were changed"),
 "fix: map draws below the first cumulative value to the first point in DistributionSampler": ("C04", "draws below the first cumulative value gave NaN"),
 "fix: look up observations by position in ObsTable.get_observations": ("C07", "after filtering rows, values of other rows were returned or an error was raised"),
 "fix: accept scalar time bounds for several query points in ObsTable.range_search": ("C07", "a scalar time bound for several points was refused"),
 "fix: update the filters of an ObsTable when its rows are filtered": ("C08", "filters no longer in the table were still listed"),
 "fix: do not modify the table given to RomanObsTable and accept dictionaries": ("C09", "the caller's table gained columns"),
 "fix: read the multi-accum table of RomanObsTable from the given path": ("C09", "a given path raised a NameError"),
 "fix: derive ZTF zero points from the detector values of the survey": ("C10", "zero points ignored the configured gain, readout noise and dark current, so the limiting magnitude was not at five sigma"),
 "fix: allow any number of time points in oversample_opsim": ("C08", "grids that are not a multiple of the number of bands raised an error"),
 "fix: do not truncate zero point coefficients given as integers": ("C10", "an integer coefficient of the first band truncated those of all other bands"),
 "fix: map noise-free light curves of blueshifted sources to observer times": ("C18", "a negative redshift left the rest-frame times unscaled"),
 "fix: noise-free light curves with integer phases and a fractional t0": ("C18", "integer phases of a source without redshift raised a casting error"),
}

KNOWN = [
    {"property": "C29", "case": "walk-3-1", "label": "the step is measured from the previous time", "id": "agn-walk-steps", "status": "known",
     "what": "sample_damped_random_walk measures every step from t0 instead of the previous time, so the walk forgets ever faster (tests/test_agn.py fixes averages that only hold this way, so the repair would fail the suite)"},
    {"property": "C29", "case": "scaling-sf", "label": "the value at 4000 Angstrom", "id": "agn-scaling-sf", "status": "known",
     "what": "AGN.compute_structure_function_at_inf multiplies by 10**B and the wavelength instead of (wavelength / 4000 Angstrom)**B, so it is off by 10**-0.479 at 4000 Angstrom (tests/test_agn.py fixes these numbers)"},
    {"property": "C29", "case": "scaling-tau", "label": "the value at 4000 Angstrom", "id": "agn-scaling-tau", "status": "known",
     "what": "AGN.compute_tau multiplies by 10**B and the wavelength instead of (wavelength / 4000 Angstrom)**B, so it is off by 10**0.17 at 4000 Angstrom (tests/test_agn.py fixes these numbers)"},
    {"property": "C26", "case": "coords-1", "label": "one position per sample", "id": "sncoord-single-sample", "status": "known",
     "what": "SNCoordGivenPhysicalSep stores arrays of length one instead of scalars when a single sample is drawn (tests/test_snia_utils.py indexes them, so the repair would fail the suite)"},
]
