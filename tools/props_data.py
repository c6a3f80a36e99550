prop("C01", "Value and time slicers put every visit in exactly the right slice",
     """For any set of visits and any bin specification, slicing by column values, by several columns at once, by movie
     frames, by time interval, by block or by single visit puts each in-range visit in exactly the slice(s) whose
     documented range contains it and drops no in-range visit. The slice points describe the slices they label, and two
     slicers compare equal exactly when they define the same slices.""",
     ["inputs", "configurations"],
     "all visit tables, column values incl. ties and edge hits, explicit bins or bin size/min/max, one to three columns, cumulative or not",
     "tests use uniform random columns and a few bin settings; edge-valued visits, unsorted bins, empty slices, and combinations of settings are unbounded",
     ["rubin_sim/maf/slicers/one_d_slicer.py", "rubin_sim/maf/slicers/nd_slicer.py", "rubin_sim/maf/slicers/movie_slicer.py", "rubin_sim/maf/slicers/time_interval_slicers.py"],
     [("one-column bins", "OneDSlicer.setup_slicer"), ("n-column bins", "NDSlicer.setup_slicer"), ("frames", "MovieSlicer.setup_slicer"), ("intervals, blocks, visits", "TimeIntervalSlicer, BlockIntervalSlicer, VisitIntervalSlicer")],
     "property-based testing (Hypothesis): generated visit tables and bins vs a brute-force assignment model",
     "All slices compared with a per-visit brute-force model; quarter-grid values so edges are hit exactly.")

prop("C02", "Sky slicers give each sky point exactly the visits that cover it",
     """For every pointing history, each healpixel or user-given sky point receives exactly the visits whose field of view
     (a circle of the chosen radius, or the camera footprint rotated by the visit's sky rotation) contains it, in any
     units, across RA wrap and at the poles. Restricting a slicer to a subset of pixels or to a circle does not change the
     visits of the pixels kept, and two sky slicers compare equal exactly when they assign the same visits.""",
     ["inputs", "configurations"],
     "all pointings, sky point sets, radii, units, nsides, camera footprints and rotation angles",
     "tests compare a handful of random pointing sets against a distance cut; wrap-around, poles, unit mixes, chip gaps and rotations are continuous spaces",
     ["rubin_sim/maf/slicers/base_spatial_slicer.py", "rubin_sim/maf/slicers/healpix_slicer.py", "rubin_sim/maf/slicers/healpix_subset_slicer.py", "rubin_sim/maf/slicers/user_points_slicer.py"],
     [("tree search", "BaseSpatialSlicer._setup_slice_sim_data"), ("camera footprint", "BaseSpatialSlicer.setup_slicer with use_camera"), ("circle helper", "make_circle_subset_slicer")],
     "property-based testing: generated pointings vs great-circle distance and an independent gnomonic camera projection",
     "Differential against direct great-circle arithmetic; visits within 1e-7 rad of an edge are not judged; the camera map is a synthetic footprint file.")

prop("C04", "A group of metric bundles gives each bundle what it means on its own",
     """However metrics, slicers, constraints, stackers and maps are combined and cached in one run, every metric's values
     and mask, its reduced values and its summary statistics are those of evaluating that metric alone on exactly the visits
     selected by its own constraint, with its own derived columns and its own slices. The result does not depend on the
     order or presence of other metrics.""",
     ["inputs", "configurations", "programs"],
     "all groups of bundles over shared or distinct slicers, constraints, stacker settings, maps and cache sizes",
     "tests run one or two compatible bundles; interference needs particular combinations of shared slicers, conflicting stackers, caches and constraints",
     ["rubin_sim/maf/metric_bundles/metric_bundle_group.py", "rubin_sim/maf/metric_bundles/metric_bundle.py"],
     [("grouping and stackers", "MetricBundleGroup._find_compatible_lists, run_current"), ("evaluation loop and cache", "MetricBundleGroup._run_compatible"), ("reduce, summaries", "reduce_all, summary_all")],
     "property-based testing: generated bundle groups vs a stand-alone reference evaluation (differential / metamorphic)",
     "Reference evaluator re-slices by brute force and calls each metric itself; groups of 1-6 bundles, 3 independent arms.")

prop("C05", "Metric results survive saving and restoring",
     """A metric result written to disk and read back has bit-identical unmasked values, the same mask, the same metric,
     constraint, run and label description, and a slicer that still compares equal, slices new data identically and has the
     same slice points; further generations of saving change nothing. The JSON form lists exactly the unmasked values.""",
     ["inputs", "configurations", "histories"],
     "all slicer kinds and settings, value arrays (scalar, object, masked or not, bad values), repeated save/restore",
     "tests save a few slicers with default settings; lost settings only show for non-default combinations",
     ["rubin_sim/maf/slicers/base_slicer.py", "rubin_sim/maf/metric_bundles/metric_bundle.py", "rubin_sim/maf/metric_bundles/metric_bundle_group.py"],
     [("data file", "BaseSlicer.write_data, read_data"), ("JSON", "BaseSlicer.output_json, MetricBundle.output_json"), ("group restore", "MetricBundleGroup.read_all")],
     "property-based testing: round-trip of generated results through files, plus a behavioural comparison of the restored slicer",
     "Round-trip oracle over 11 slicer kinds; the restored slicer is also re-run on new generated visits.")

prop("C06", "The results database returns exactly what was recorded",
     """After any history of recording metrics, displays, plots and summary statistics, from one or several handles, with
     reopening and schema migration, every query returns exactly the recorded items that satisfy it, joined to the right
     metric. Re-recording a metric keeps its identity, replacing a display or plot replaces only that one, and recording
     never alters the caller's data.""",
     ["histories", "inputs"],
     "all sequences of update, query, reopen and migrate operations over shared or distinct metric identities",
     "tests record one or two metrics; overwrite and join mistakes need histories with colliding names and several handles",
     ["rubin_sim/maf/db/results_db.py"],
     [("updates", "ResultsDb.update_metric, update_display, update_plot, update_summary_stat"), ("queries", "get_metric_id, get_metric_id_like, get_summary_stats, get_plot_files, get_metric_display_info"), ("migration", "ResultsDb.update_database, downgrade_database")],
     "stateful property-based testing: generated operation histories against an in-memory model",
     "Model-based histories of up to 26 operations with two handles; full query battery compared with the model.",
     state="the sqlite results database of an output directory")

prop("C07", "Tracked runs and their reports show everything recorded, exactly once",
     """After any history of adding, re-adding and removing analysis runs, from any working directory, the tracking
     database lists exactly the current runs with their latest information and a directory that leads to the results,
     and re-adding a directory keeps its run id. The report of a run shows each recorded metric in exactly one
     group/subgroup with exactly its own captions, statistics, plots and data file, and every selection returns exactly
     the matching metrics.""",
     ["histories", "inputs"],
     "all histories of run additions/removals, working directories and path forms; all recorded metric/plot/statistic sets",
     "tests add two runs from one directory and never read the report",
     ["rubin_sim/maf/db/tracking_db.py", "rubin_sim/maf/web/maf_run_results.py", "rubin_sim/maf/web/maf_tracking.py"],
     [("runs", "TrackingDb.add_run, delRun, add_run_to_database"), ("report", "MafRunResults"), ("run list", "MafTracking")],
     "stateful property-based testing against a model of the run list; generated reports against the recorded model",
     "Histories of up to 18 operations; reports of up to 8 metrics with all selection queries compared.",
     state="the sqlite tracking database")

prop("C08", "Reading a simulation returns exactly the requested visits and columns",
     """Reading visits from a simulation database with any constraint and column list, by path, by open connection or by
     full query, returns exactly the rows satisfying the constraint, in order, with exactly the requested columns followed by
     the derived columns computed in turn, and reports an error rather than an empty or wrong table when nothing matches or
     no table can be identified. Benchmark visit counts scale with survey length and coadded depths with visit number.""",
     ["inputs", "programs", "configurations"],
     "all tables, nested constraints, column lists, table names (with decoy tables), connection kinds and stackers",
     "tests read one fixture database with one or two constraints",
     ["rubin_sim/maf/utils/opsim_utils.py"],
     [("reading", "get_sim_data"), ("benchmarks", "scale_benchmarks, calc_coadded_depth")],
     "property-based testing: generated sqlite tables and constraint expressions vs a Python evaluator of the same expression",
     "Differential: the constraint is generated as an expression tree, rendered to SQL and evaluated independently in Python.")

prop("C09", "Column, angle and state-change statistics follow their definitions",
     """For any visits, each one-column statistic (extremes, means, medians, percentiles, scatter, counts, fractions,
     outliers, coadded depth), each angle statistic (accounting for wrap-around) and each state-change or open-shutter statistic
     equals its mathematical definition. The result does not depend on the order of the visits, angle statistics follow a
     rotation of all angles, and an empty selection gives zero or the declared bad value.""",
     ["inputs", "configurations"],
     "all value lists with ties and sign changes, cut-offs, percentiles, bands, angles around the wrap, visit orders",
     "tests evaluate each metric on one or two fixed arrays; ties, wrap-around, boundary cut-offs and empty selections vary without bound",
     ["rubin_sim/maf/metrics/simple_metrics.py", "rubin_sim/maf/metrics/technical_metrics.py", "rubin_sim/maf/metrics/string_count_metric.py", "rubin_sim/maf/metrics/coverage_metric.py"],
     [("statistics", "simple_metrics"), ("angles", "MeanAngleMetric, RmsAngleMetric, FullRangeAngleMetric, AngularSpreadMetric"), ("state changes", "technical_metrics")],
     "property-based testing: generated visits vs pure-Python definitions, plus permutation and rotation metamorphic relations",
     "Independent pure-Python definitions on a quarter grid so that ties and cut-offs are hit exactly.")

prop("C10", "Gap, revisit, pair, uniformity and phase metrics match the visit times",
     """For any visit times, gap histograms, gap percentages, within- and between-night gaps, rapid-revisit and pair counts,
     template fractions, uniformity measures and phase-coverage measures equal their definitions on the actual set of times,
     independently of the order in which visits are listed. Perfectly even visits are perfectly uniform, and too few visits
     give the declared bad value.""",
     ["inputs", "configurations", "histories"],
     "all sets of visit times over one or many nights incl. ties, all bin edges, windows, thresholds and periods",
     "tests use evenly spaced or hand-made sequences; the interplay of nights, ties, window edges and unsorted input is not sampled",
     ["rubin_sim/maf/metrics/cadence_metrics.py", "rubin_sim/maf/metrics/tgaps.py", "rubin_sim/maf/metrics/pair_metric.py", "rubin_sim/maf/metrics/phase_gap_metric.py"],
     [("gaps", "TgapsMetric, NightgapsMetric, IntraNightGapsMetric, InterNightGapsMetric"), ("revisits and pairs", "RapidRevisitMetric, NRevisitsMetric, PairMetric, GapsMetric"), ("uniformity and phase", "UniformityMetric, GeneralUniformityMetric, PhaseGapMetric, PeriodicQualityMetric")],
     "property-based testing: generated visit histories vs brute-force definitions on exact dyadic times",
     "Brute-force oracles over all pairs of visits; dyadic grids make window edges exact.")

prop("C11", "Season, campaign, visit-group and template metrics match the visit history",
     """For any visit history at a sky position, season lengths, the number of seasons, the gaps between nights within seasons and the
     time-delay figures derived from them follow from grouping the (long or deep enough) visits by solar season; visit groups, pairs and
     lunation counts follow from the separations within each night. A template exists exactly from the night on which the requested number
     of good-enough images has been taken, with the depth, seeing and difference-image depths implied by those images.""",
     ["inputs", "configurations", "histories"],
     "all visit histories (nights, times, bands, depths, exposure times), sky positions, thresholds, windows and orders of visits",
     "tests use one hand-made sequence per metric; season boundaries, lunation runs, half visits and thresholds combine without bound",
     ["rubin_sim/maf/metrics/season_metrics.py", "rubin_sim/maf/metrics/visit_groups_metric.py", "rubin_sim/maf/metrics/incremental_template_metric.py", "rubin_sim/maf/metrics/cumulative_metric.py"],
     [("seasons", "season_metrics"), ("groups", "VisitGroupsMetric, PairFractionMetric"), ("templates", "TemplateTime"), ("cumulative", "CumulativeMetric, AgeMetric, KuiperMetric")],
     "property-based testing: generated visit histories vs brute-force definitions",
     "Pure-Python reference of season grouping, groups, lunations and template building; permutation invariance.")

prop("C12", "Accumulated and binned statistics and coadded depths match the visits",
     """For any visits, each statistic accumulated or binned along a column (counts, means, minima, maxima, coadded depth,
     uniformity) has, in every bin, the value its definition gives for the visits in (or up to) that bin, with the declared bad value where
     there are none. Coadded and extinction-corrected depths, visits collapsed to one per night, and linear multi-band depth models follow
     from the individual depths; file names made from arbitrary run names are always safe and stable.""",
     ["inputs", "configurations"],
     "all visits and bin edges incl. visits exactly on an edge or outside, all bands, depths, extinctions and model coefficients, all names",
     "tests use one evenly spaced sequence; empty bins, edges, out-of-range visits and band combinations vary without bound",
     ["rubin_sim/maf/metrics/vector_metrics.py", "rubin_sim/maf/metrics/exgal_m5.py", "rubin_sim/maf/utils/maf_utils.py", "rubin_sim/maf/metrics/uniformity_metrics.py", "rubin_sim/maf/metrics/cosmology_summary_metrics.py"],
     [("vector statistics", "AccumulateMetric and subclasses, HistogramMetric"), ("depth", "ExgalM5, collapse_night, linear multiband models"), ("names", "name_sanitize")],
     "property-based testing: generated visits vs brute-force per-bin definitions",
     "Independent per-bin references on dyadic grids, so that edges are exact.")

prop("C19", "Spectra convert, scale, redden, redshift, integrate and save consistently",
     """For any spectrum, conversion between flux densities and back, scaling, adding, reddening, redshifting and normalising do
     what the physics says: magnitudes, fluxes and colours transform accordingly (scaling by a factor shifts every magnitude alike,
     normalising to a magnitude gives that magnitude, one band at a time or many at once). Writing a spectrum and reading it back, plain or compressed,
     with or without the cache, gives the same spectrum; equality and missing coverage are reported correctly.""",
     ["inputs", "operation sequences", "files"],
     "all wavelength grids and positive fluxes, bands, extinctions, redshifts, magnitudes, file formats and cache contents",
     "tests use a few smooth spectra on the default grid; grids, coverages and sequences of operations vary without bound",
     ["rubin_sim/phot_utils/sed.py", "rubin_sim/phot_utils/sed_utils.py"],
     [("algebra", "Sed.flambda_tofnu, multiply_flux_norm, add_dust, redshift_sed, renormalize_sed"), ("magnitudes", "Sed.calc_mag, calc_flux_norm, setup_phi_array, many_mag_calc"), ("files and cache", "Sed.read_sed_flambda, write_sed, cache_lsst_seds, read_close__kurucz")],
     "property-based testing: generated spectra vs independent integration, round trips and metamorphic relations",
     "Reference integrals in pure Python, metamorphic scaling relations, file round trips in a scratch directory.")

prop("C20", "Resampling keeps flux, and throughput curves combine as they should",
     """Resampling a spectrum or throughput onto any other grid conserves the integral within every bin that the data cover and never invents flux
     outside them. Products of spectra and throughputs are products on the common wavelength range whatever the grids; throughput files read singly or as a list of
     components give the product of the components, and effective wavelengths, zeropoints and per-band dust coefficients agree with the curves.""",
     ["inputs", "configurations", "files"],
     "all pairs of grids (finer, coarser, partially overlapping, disjoint), flux values, throughput components and bands",
     "tests compare one or two grids; overlap geometry between two arbitrary grids varies without bound",
     ["rubin_sim/phot_utils/spectral_resampling.py", "rubin_sim/phot_utils/bandpass.py", "rubin_sim/phot_utils/photometric_parameters.py"],
     [("resampling", "spectres"), ("products", "Sed.multiply_sed, Bandpass.multiply_throughputs"), ("bands", "Bandpass.read_throughput_list, calc_zp_t, calc_eff_wavelen, DustValues")],
     "property-based testing: generated grids vs exact bin-overlap integrals; differential file reads",
     "Exact overlap sums in pure Python for every new bin.")

prop("C21", "Signal to noise, depths, magnitude errors and zeropoints are consistent",
     """For any source, sky, seeing, exposure and detector parameters, the signal to noise equals source counts over the total noise, a source at the five-sigma
     depth has a signal to noise of five, depth-based and count-based errors agree, and a sky scaled to a wanted depth gives that depth. Photometric parameters given explicitly are
     used and cannot change later, and predicted zeropoints follow airmass and exposure time.""",
     ["inputs", "configurations"],
     "all magnitudes, sky levels, seeing, exposures, gains, noises, plate scales, systematic errors and bands",
     "tests compare a handful of default configurations, mostly with unit gain",
     ["rubin_sim/phot_utils/signaltonoise.py", "rubin_sim/phot_utils/photometric_parameters.py", "rubin_sim/phot_utils/predicted_zeropoints.py"],
     [("noise", "calc_snr_sed, calc_total_non_source_noise_sq, calc_m5, calc_snr_m5, scale_sky_m5"), ("parameters", "PhotometricParameters"), ("zeropoints", "predicted_zeropoint*")],
     "property-based testing: generated observing parameters vs closed-form noise model and inverse relations",
     "Closed-form reference of the noise model plus inverse (m5 -> SNR 5, depth -> sky -> depth) relations.")

prop("C22", "Chebyshev ephemerides cover the span and reproduce the fitted motion",
     """For any objects, time span and tolerance, the fitted segments tile the whole span for every object without gaps or overlaps (or the
     missing part is recorded as failed), the recorded residuals are the true ones and within the tolerance, and positions looked up at any time inside the span agree with the input ephemerides
     to the tolerance, also across RA 0 and after writing, appending and reading files. Each look-up row belongs to the object it names; times or objects without a fit give no position. Polynomial evaluation
     and fitting obey their definitions: end points and end rates exact, best fit otherwise.""".replace("files. Each", "files; each").replace("position. Polynomial", "position. Polynomial"),
     ["inputs", "configurations", "files"],
     "all smooth motions, object sets, spans, segment lengths, granularities, tolerances, time scales, look-up times and object subsets",
     "the repository's tests of fits and look-ups are skipped without the orbit library; span/length combinations and look-up times vary without bound",
     ["rubin_sim/moving_objects/chebyshev_utils.py", "rubin_sim/moving_objects/cheby_fits.py", "rubin_sim/moving_objects/cheby_values.py"],
     [("polynomials", "chebeval, chebfit, make_cheb_matrix"), ("segments", "ChebyFits.calc_segment_length, calc_segments"), ("look-up", "ChebyValues.get_ephemerides")],
     "property-based testing with a closed-form stand-in for the orbit library; differential against numpy's Chebyshev series and a constrained least-squares reference",
     "Generated fits checked segment by segment against the exact motion; tiling, residuals and look-ups compared at generated times.")

prop("C23", "Simulated object observations are exactly the visits that see the object",
     """For any objects, visits and footprint (circle, rectangle, camera), the simulated observations contain a row for an object and a visit exactly when the object's position at the time of
     the visit lies in the visit's footprint, also across RA 0, for any visit order, with or without pre-computed positions, through the API or the command line. Each row carries the object's ephemeris at that time, the visit's values, and the colour
     and trailing terms that follow from them; orbital elements survive conversion to and from the ephemeris library.""",
     ["inputs", "configurations"],
     "all orbits, pointings, rotations, footprint kinds and sizes, time steps, ephemeris modes, visit orders and pre-computed position tables",
     "the repository's tests of this part are skipped without the orbit library; field/object geometry varies without bound",
     ["rubin_sim/moving_objects/direct_obs.py", "rubin_sim/moving_objects/base_obs.py", "rubin_sim/moving_objects/make_lsst_obs.py", "rubin_sim/moving_objects/ooephemerides.py"],
     [("matching", "DirectObs.run, BaseObs.sso_in_fov"), ("photometry", "calc_colors, calc_trailing_losses"), ("library interface", "PyOrbEphemerides")],
     "property-based testing with a closed-form stand-in for the orbit library: brute force over every object-visit pair",
     "Independent footprint geometry evaluated for every object-visit pair; end-to-end arm through the command line and a sqlite simulation.")

prop("C24", "Orbit tables are read, completed, selected and compared faithfully",
     """For any orbit table in a supported layout (any of the accepted column names, order, delimiter, comments, headerless standard format, data frame, array or single record), the orbits read
     have exactly the given elements, ids and photometric parameters, with the documented defaults for what is missing; tables with missing or ambiguous elements, a contradictory format, negative inclinations or an
     impossible epoch are refused. Selecting, iterating and updating keep each object's identity, and two sets of orbits are equal exactly when every element is.""",
     ["inputs", "files"],
     "all element sets and formats, all column-name synonyms and orders, delimiters, comment lines, optional columns, container types",
     "tests read three fixture files (not available offline); layouts combine without bound",
     ["rubin_sim/moving_objects/orbits.py"],
     [("reading", "Orbits.read_orbits"), ("validation", "Orbits.set_orbits, assign_sed"), ("selection", "Orbits.__getitem__, __iter__, __eq__, update_orbits")],
     "property-based testing: generated tables written in generated layouts and read back",
     "Round trip through generated files and containers, with a reference for validity.")

prop("C27", "The visit-sequence archive remembers exactly what was recorded",
     """For any history of recording, tagging, commenting, registering files, environments and nightly statistics, updating and querying, the archive returns exactly what a plain in-memory model of that history
     returns: every field of every visit sequence, its tags, comments with their authors and times, file locations and hashes, whatever the time zone of the database session. Selecting simulations by night, tags, telescope
     and age returns exactly those that satisfy all the criteria; contradictory or repeated registrations are refused without changing what was recorded, and the hash of visits depends on their content alone.""",
     ["inputs", "histories", "configurations"],
     "all sequences of archive operations, all field values (quotes, unicode, missing values), time zones, selection criteria, and visit tables",
     "tests record a few sequences with fixed values in one time zone; histories and selections combine without bound",
     ["rubin_sim/sim_archive/vseqmetadata.py"],
     [("recording", "VisitSequenceArchiveMetadata.record_simulation_metadata, record_completed_metadata, record_mixed_metadata"), ("annotation", "tag, untag, comment, register_file, record_conda_env, insert_nightly_stats"), ("selection", "sims_on_night, sims_on_night_with_stats"), ("hash", "compute_visits_sha256")],
     "stateful model-based property testing against a real PostgreSQL server",
     "Generated operation histories compared after every step with an in-memory model, plus an independent connection to the database.")

prop("C28", "Archived files, visits and statistics come back unchanged",
     """For any visits and files put into a simulation archive, what is read back has the same content, the recorded hashes are the hashes of the stored bytes, and a refused replacement leaves the archived file as it was. Exporting an archived
     simulation, importing it elsewhere and converting between visit file formats keep visits, labels, tags, nights and times; simulation directories whose files do not match their recorded hashes are detected. Nightly statistics
     equal those computed directly from the visits of each night, and every supported form of an observing date denotes the same night.""",
     ["inputs", "histories", "files"],
     "all visit tables, file types and names, export/import chains, damaged files, queries, stackers, date forms and time scales",
     "tests archive one fixed simulation; tables, file combinations and damage vary without bound",
     ["rubin_sim/sim_archive/vseqarchive.py", "rubin_sim/sim_archive/sim_archive.py", "rubin_sim/sim_archive/util.py"],
     [("files", "add_file, get_file"), ("visits", "get_visits, compute_nightly_stats"), ("directories", "make_sim_data_dir, verify_compiled_archive"), ("dates", "dayobs_to_date")],
     "stateful and round-trip property testing on scratch archives and a real PostgreSQL server",
     "Round trips through files and the database; direct recomputation of hashes and statistics.")

prop("C29", "Choosing a simulation for a night finds the latest one that fits",
     """For any set of archived simulations, the pre-night index of a night lists exactly the simulations that cover it, and the one chosen for given nights, tags, telescope and maximum age is the most recently created one that satisfies
     them all, with an explicit error when there is none, whether the database or the index bucket is used. The visits and statistics loaded are exactly those of the chosen simulation in the requested nights, and the caller's arguments are not changed.
     Pre-night simulations span the requested nights, their anomalous overheads respect the minimum and the seed, and scheduler snapshots restore the configured scheduler.""",
     ["inputs", "histories", "configurations"],
     "all sets of simulations, nights, tags, telescopes, ages, date forms, index locations, stackers, overhead parameters, and scheduler configurations",
     "tests choose among a handful of fixed simulations; combinations of dates, tags and ages vary without bound",
     ["rubin_sim/sim_archive/prenightindex.py", "rubin_sim/sim_archive/sim_archive.py", "rubin_sim/sim_archive/prenight.py", "rubin_sim/sim_archive/make_snapshot.py"],
     [("index", "get_prenight_index, get_sim_uuid, get_sim_metadata"), ("choice", "select_latest_prenight_sim, find_latest_prenight_sim_for_nights"), ("loading", "fetch_sim_for_nights, fetch_sim_stats_for_night"), ("tools", "compute_sim_start_and_end, AnomalousOverheadFunc, get_scheduler")],
     "property-based testing against a brute-force reference over a scratch archive (PostgreSQL and index files)",
     "Brute-force choice over the generated simulations; visits and statistics recomputed from the generated tables.")

prop("C13", "Summary statistics over sky maps follow their definitions",
     """For any sky map with any pixels masked, every summary statistic equals its definition evaluated over the unmasked pixels: the area above or between thresholds, the value reached over the best given area, the visits reached over the survey area and the
     area reached with given visits, the covered fraction of a footprint, medians, counts, normalisations, angular power after removing monopole and dipole, regional scatter, clustering and redshift biases, and the figure of merit interpolated between its tabulated values.
     A map with nothing left gives the documented bad value rather than a failure, and computing summaries never changes the map.""",
     ["inputs", "configurations"],
     "all map values and resolutions, masks (none to all), thresholds, areas, footprints, normalisations, multipole ranges, years",
     "tests use one or two fixed maps, rarely masked; maps, masks and parameters combine without bound",
     ["rubin_sim/maf/metrics/summary_metrics.py", "rubin_sim/maf/metrics/area_summary_metrics.py", "rubin_sim/maf/metrics/cosmology_summary_metrics.py", "rubin_sim/maf/metric_bundles/metric_bundle.py"],
     [("areas", "FONv, FOArea, AreaSummaryMetric, AreaThresholdMetric, FootprintFractionMetric"), ("driver", "MetricBundle.compute_summary_stats"), ("power", "TotalPowerMetric, TomographicClusteringSigma8biasMetric, MultibandMeanzBiasMetric"), ("merit", "StaticProbesFoMEmulatorMetricSimple, StripinessMetric")],
     "property-based testing: generated masked maps against direct definitions, synthesised skies of known power, and metamorphic scaling",
     "Independent evaluation of each definition on the unmasked pixels of generated maps.")

prop("C17", "Derived visit columns follow their definitions, row by row",
     """For any table of visits, every derived column equals its definition computed for that visit alone - positions, hour and parallactic angles, galactic and ecliptic coordinates, parallax and refraction amplitudes, depths, saturation limits, dates and nights, dithers, labels -
     independent of the order of the other visits where the definition is, and angles are in the units the visits use. Existing columns and rows are left as they were, a column that is already present is reused or recomputed as requested,
     recorded units agree with the values, and two stackers are equal exactly when they would compute the same thing.""",
     ["inputs", "configurations"],
     "all visit tables (single visits, poles, wrap of right ascension, zenith, any bands), units of angles, stacker options, orders of rows",
     "tests check a few rows of a few stackers; coordinates, bands and units vary without bound",
     ["rubin_sim/maf/stackers/general_stackers.py", "rubin_sim/maf/stackers/coord_stackers.py", "rubin_sim/maf/stackers/m5_optimal_stacker.py", "rubin_sim/maf/stackers/date_stackers.py", "rubin_sim/maf/stackers/label_stackers.py",
      "rubin_sim/maf/stackers/n_follow_stacker.py", "rubin_sim/maf/stackers/neo_dist_stacker.py", "rubin_sim/maf/stackers/base_stacker.py"],
     [("coordinates", "HourAngleStacker, ParallacticAngleStacker, GalacticStacker, EclipticStacker, ZenithDistStacker"), ("photometry", "SaturationStacker, FiveSigmaStacker, DcrStacker, ParallaxFactorStacker, M5OptimalStacker"), ("dates and labels", "DayObsStacker, ObservationStartDatetime64Stacker, WFDlabelStacker"), ("driver", "BaseStacker.run, __eq__")],
     "property-based testing: generated visit tables against independent scalar definitions, with permutation and unit metamorphic relations",
     "Scalar reference formulas per visit; row permutation, degrees/radians and column-reuse relations.")

prop("C14", "Astrometric precision metrics follow from the visits' precision and geometry",
     """For any visits to a point, the reported parallax and proper-motion uncertainties are those of a least-squares fit with each visit weighted by its own astrometric precision (seeing, depth, band and atmospheric floor), the coverage and degeneracy of parallax
     angles reflect exactly the visits above the signal limit, and distances from the field centre and survey volumes follow their geometric definitions. The values do not depend on the order of the visits, the visits are not changed, only declared columns are needed,
     and slices with too few usable visits give the bad value instead of failing.""",
     ["inputs", "configurations"],
     "all sets of visits (one to many, any bands, depths, parallax factors, times), source magnitudes and spectral types, signal limits, ranges, column names",
     "tests evaluate one or two hand-made tables; geometry, weights and limits combine without bound",
     ["rubin_sim/maf/metrics/calibration_metrics.py", "rubin_sim/maf/metrics/dcr_metric.py", "rubin_sim/maf/metrics/brown_dwarf_metric.py", "rubin_sim/maf/utils/astrometry_utils.py"],
     [("fits", "ParallaxMetric, ProperMotionMetric"), ("coverage", "ParallaxCoverageMetric, ParallaxDcrDegenMetric"), ("geometry", "RadiusObsMetric, VolumeSumMetric"), ("refraction", "DcrPrecisionMetric")],
     "property-based testing: generated visits against independent weighted least squares and geometry, with permutation and column-renaming relations",
     "Independent least-squares and geometric reference per slice; permutation, repetition and non-mutation relations.")

prop("C32", "Depth, crowding, colour and Galactic-plane metrics follow their definitions",
     """For any visits to a point and any map values there, the coadded and dust-corrected depths, surface-brightness limits, galaxy and star counts, crowding limits, light-curve points, nights with a colour and a slope, time-lag and structure-function sampling, and the Galactic-plane
     footprint, filter balance, visit-interval and season-gap scores equal their definitions on the visits that pass the cuts. Cuts on depth, dust, exposure time, priority and number of bands act exactly as configured and otherwise give the bad value;
     the values do not depend on the order of the visits, the visits are not changed, and column names are configurable.""",
     ["inputs", "configurations"],
     "all sets of visits, bands, map values, thresholds, filters, luminosity functions, timescales and column names",
     "tests evaluate a hand-made table with default settings for some of these; thresholds and cuts combine without bound",
     ["rubin_sim/maf/metrics/exgal_m5.py", "rubin_sim/maf/metrics/optimal_m5_metric.py", "rubin_sim/maf/metrics/surfb_metric.py", "rubin_sim/maf/metrics/weak_lensing_systematics_metric.py", "rubin_sim/maf/metrics/scaling_metrics.py", "rubin_sim/maf/metrics/crowding_metric.py",
      "rubin_sim/maf/metrics/color_slope_metrics.py", "rubin_sim/maf/metrics/agn_time_lag_metric.py", "rubin_sim/maf/metrics/agnstructure.py", "rubin_sim/maf/metrics/galactic_plane_metrics.py", "rubin_sim/maf/metrics/galplane_time_sampling_metrics.py"],
     [("depth", "ExgalM5, ExgalM5WithCuts, WeakLensingNvisits, SurfaceBrightLimitMetric, OptimalM5Metric, NgalScaleMetric"), ("stars", "CrowdingM5Metric, NstarsMetric, CrowdingMagUncertMetric, NlcPointsMetric"), ("time", "ColorSlopeMetric, AgnTimeLagMetric, SFUncertMetric"), ("plane", "GalPlaneFootprintMetric, GalPlaneTimePerFilterMetric, GalPlaneVisitIntervalsTimescaleMetric, GalPlaneSeasonGapsTimescaleMetric")],
     "property-based testing: generated visits and map values against independent definitions, with permutation and column-renaming relations",
     "Independent evaluation of each definition on generated slices; permutation, repetition and non-mutation relations.")

prop("C15", "Moving-object discovery, activity and colour metrics match the detections",
     """For any history of detections of an object, discovery is reported exactly when enough nights, each with enough detections close enough in time, fall in one window, with the time, place, distance and chances of the visits which made it;
     counts, nights, arcs, colours, activity windows, light-curve coverage and known-object times equal their definitions on the visits above the detection limit. The values do not depend on the order of the visits and the visits are not changed.""",
     ["inputs", "histories", "configurations"],
     "all detection histories (any nights, times, signal to noise, bands, unsorted), discovery criteria, windows, bin widths, column names",
     "tests use one fixed object history; the discovery criteria and the order of detections combine without bound",
     ["rubin_sim/maf/metrics/mo_metrics.py"],
     [("discovery", "DiscoveryMetric and its children, MagicDiscoveryMetric, HighVelocityMetric, HighVelocityNightsMetric"), ("activity", "ActivityOverTimeMetric, ActivityOverPeriodMetric"), ("characterisation", "LightcurveInversionAsteroidMetric, ColorAsteroidMetric, LightcurveColorOuterMetric, InstantaneousColorMetric, KnownObjectsMetric, PeakVMagMetric")],
     "property-based testing: generated detection histories against an independent reading of each discovery and activity definition",
     "Brute-force reference over all windows and detection sets; permutation, repetition and non-mutation relations.")

prop("C16", "Moving-object populations are sliced, run, joined and summarised faithfully",
     """For any population of orbits and table of its observations, every object gets exactly its own observations that satisfy the constraint at every brightness, and running many metrics together (or in parts that are joined afterwards) gives each the values and masks it would have alone.
     Completeness over brightness and over time, population-weighted means and totals, and fractions of the population equal their definitions on those values, per metric and with the requested brightness; results survive saving and restoring.
     The processing commands accept what the script generator writes, use the files of the right run, and one plot that fails does not stop the others.""",
     ["inputs", "configurations", "histories"],
     "all populations (numbered or named objects, own or shared brightness values, objects without observations), constraints, mixtures of metrics and column recipes, splits into parts, brightness marks, sets of databases",
     "tests run one small population with one metric; mixtures, splits, names and marks combine without bound",
     ["rubin_sim/maf/slicers/mo_slicer.py", "rubin_sim/maf/metric_bundles/mo_metric_bundle.py", "rubin_sim/maf/metrics/mo_summary_metrics.py", "rubin_sim/maf/batches/moving_objects_batch.py", "rubin_sim/maf/run_moving_calc.py", "rubin_sim/maf/run_moving_join.py", "rubin_sim/maf/generate_ss.py"],
     [("running", "MoObjSlicer, MoMetricBundle, MoMetricBundleGroup"), ("summaries", "MoCompletenessMetric, MoCompletenessAtTimeMetric, integrate_over_h, TotalNumberSSO, run_completeness_summary, run_fraction_summary"), ("commands", "run_moving_calc, run_moving_join, combine_subsets, generate_ss_commands")],
     "property-based testing: generated populations against direct per-object evaluation, split/join and save/load metamorphic relations, independent summary formulas",
     "Direct evaluation per object and brightness; the whole against joined parts; independent summary formulas; parsers of the commands as oracle for the script.")

prop("C31", "Sky brightness is the sum of its components at each point",
     """For any set of sky points, time, or given airmass and positions of Sun and Moon, the predicted sky brightness at each point is the sum of the selected components (Moon, lower and upper atmosphere, airglow, zodiacal light, scattered starlight, twilight),
     each interpolated in its own table at that point, with no light beyond the airmass limit; every point's value is independent of the other points. Spectra, magnitudes and magnitudes through a given bandpass agree with each other, and points, units and times can be given in any supported form.""",
     ["inputs", "configurations"],
     "all sets of points (also single ones), times of night and year, positions of Sun and Moon, airmass limits, selections of components, units, spectra or magnitudes",
     "tests evaluate a few points with all components against each other; points, components and geometry combine without bound",
     ["rubin_sim/skybrightness/sky_model.py", "rubin_sim/skybrightness/interp_components.py", "rubin_sim/skybrightness/twilight_func.py", "rubin_sim/skybrightness/utils.py", "rubin_sim/skybrightness/allsky_db.py"],
     [("model", "SkyModel.set_params, set_ra_dec_mjd, return_mags, return_wave_spec"), ("components", "ScatteredStar, LowerAtm, UpperAtm, Airglow, TwilightInterp, MoonInterp, ZodiacalInterp"), ("tools", "wrap_ra, recalc_mags, all_sky_db, diode_sky_db")],
     "property-based testing: generated points and geometry against independent interpolation of synthetic component tables, with point-by-point and unit relations",
     "Independent interpolation of each component in its own synthetic table; points one at a time against points together; astropy for positions.")

prop("C26", "Satellite constellations, their streaks and their maps follow the orbits",
     """For any constellation design the generated orbital elements are valid and have the requested altitudes, inclinations and even spacing of planes and satellites; at any time each satellite's position, altitude and sunlit state are those of its orbit seen from the observatory.
     The number and total length of streaks reported for a visit are those of the satellites, sunlit and above the altitude limit, whose path during the visit crosses its field of view, whichever other visits are asked about.
     The maps made for a night count those satellites per pixel and time, and the avoidance value is the smoothed sum of the maps within the forecast time.""",
     ["inputs", "configurations"],
     "all designs of shells and planes, times, pointings (also poles and RA 0), visit lengths, field radii, altitude limits, map resolutions, forecast times",
     "the only test needs a file fetched from the network and asks for the number of answers, not their values",
     ["rubin_sim/satellite_constellations/sat_utils.py", "rubin_sim/satellite_constellations/model_observatory.py", "rubin_sim/satellite_constellations/basis_function.py"],
     [("orbits", "create_constellation, tle_from_orbital_parameters, satellite_mean_motion, starlink_tles_v1, starlink_tles_v2, oneweb_tles"), ("streaks", "Constellation.update_mjd, paths_array, check_pointings"), ("maps", "ModelObservatory, SatelliteAvoidBasisFunction")],
     "property-based testing: generated constellations and visits against a single-satellite propagation with finely sampled paths and shadow geometry",
     "Single-satellite propagation, own shadow geometry, finely sampled paths across the field; recount of maps; even spacing and Kepler's third law for the elements.")

prop("C33", "Settings left out take their documented defaults; only declared columns count",
     """For any visits, every metric, derived column and slicer built without optional settings gives exactly the values, columns, names, units and slices it gives when each documented default (thresholds, windows, limits, radii, bins, column names) is spelled out.
     A metric needs only the columns it declares, and the presence of other columns changes nothing.""",
     ["inputs", "configurations"],
     "all metrics, derived columns and slicers of the analysis framework that can be built here, all tables of visits from dense sequences to many seasons",
     "tests build most of these once with default settings on a few visits that do not come near the default limits",
     ["rubin_sim/maf/metrics/base_metric.py", "rubin_sim/maf/metrics/cadence_metrics.py", "rubin_sim/maf/metrics/simple_metrics.py", "rubin_sim/maf/stackers/general_stackers.py", "rubin_sim/maf/slicers/healpix_slicer.py"],
     [("metrics", "constructors and run methods of all metric classes"), ("stackers", "all stacker classes"), ("slicers", "all slicer classes")],
     "property-based testing: differential comparison over generated visits of each class built bare and built with a frozen table of documented defaults",
     "Differential comparison of two instances over generated visits reaching across the default limits; table of documented defaults frozen in the verification repository.")

prop("C25", "Simulated star catalogues and the self-calibration fit",
     """A simulated catalogue holds exactly the stars inside the field of each visit, each once per visit, with its own position and true magnitude, a number for its part of the (rotated) field that is unique to the visit, the true magnitude plus all requested offsets, noise that follows the depth left after the earlier offsets, and the matching uncertainty with its floor in quadrature; the same seed gives the same catalogue.
     The calibration fit takes out stars and patches with a single measurement until none are left and returns the weighted least-squares zeropoints and magnitudes under the original identifiers.
     The package can be imported before or after the rest.""",
     ["inputs", "configurations"],
     "all star and visit tables (including at the poles and across RA 0), field radii, square patch counts, offset lists, seeds and measurement tables with any connectivity",
     "there is no test of this package beyond a metric that needs data files; its results depend on the geometry of every star and on the connectivity of every measurement",
     ["rubin_sim/selfcal/generate_catalog.py", "rubin_sim/selfcal/offsets.py", "rubin_sim/selfcal/solver.py", "rubin_sim/selfcal/star_tools.py"],
     [("generate_catalog", "catalogue"), ("LsqrSolver", "fit"), ("OffsetSNR", "noise"), ("assign_patches", "patches"), ("stars_project", "projection")],
     "property-based testing: generated stars, visits and measurements against an independent spherical-geometry and dense least-squares model",
     "Reference model over generated catalogues; dense weighted least squares as the oracle of the sparse fit.")

prop("C34", "Transients, variables and lensing events: what the visits would detect",
     """For any visits and any event (its start, light curve, distance, extinction, impact and crossing), the metrics of simple transients, afterglows, kilonovae, tidal disruptions, X-ray binary outbursts, microlensing and lensed supernovae report a detection exactly when the visits in which the event is brighter than the limit meet the stated criteria (number of visits, filters, parts of the light curve, before or after the peak, change of brightness and significance), counting each event by itself and each phase that is checked.
     Metrics of triplets, gaps between filters, nights with several filters, windows of dates, periodic stars and the spectral window equal their definitions.
     The result does not depend on the order of the visits nor on events evaluated before, and generated event populations respect their ranges and seed.""",
     ["inputs", "configurations", "histories"],
     "all visit tables, light curves, event parameters and detection criteria, in any order of the visits",
     "few of these metrics have any test, and those use one evenly spaced cadence; criteria interact (filters, phases, pre-peak points) only for particular samplings",
     ["rubin_sim/maf/metrics/transient_metrics.py", "rubin_sim/maf/metrics/periodic_detect_metric.py", "rubin_sim/maf/metrics/sn_sl_metric.py", "rubin_sim/maf/maf_contrib/kne_metrics.py", "rubin_sim/maf/maf_contrib/tdes_pop_metric.py", "rubin_sim/maf/maf_contrib/xrb_metrics.py", "rubin_sim/maf/maf_contrib/microlensing_metric.py", "rubin_sim/maf/maf_contrib/grb_transient_metric.py", "rubin_sim/maf/maf_contrib/presto_color_kne_pop_metric.py", "rubin_sim/maf/maf_contrib/triplet_metric.py", "rubin_sim/maf/maf_contrib/filter_pair_t_gaps_metric.py"],
     [("TransientMetric.run", "fraction detected"), ("KNePopMetric.run", "kilonovae"), ("TdePopMetric.run", "tidal disruptions"), ("XRBPopMetric.run", "X-ray binaries"), ("MicrolensingMetric.run", "lensing events"), ("SNSLMetric.run", "lensed supernovae")],
     "property-based testing: generated visits, light curves and events against event-by-event reference models",
     "Event-by-event reference models in plain Python over generated visits; light-curve files are generated.")

prop("C18", "Sky maps: every point gets the configured map's value at its position",
     """For any sequence of sky maps (dust, three-dimensional dust, Galactic coordinates, Galactic-plane priorities, star densities; any file, resolution, ordering, band and interpolation choice) applied in one process to any set of points or full or partial healpix grid, each point receives exactly the value that the configured map holds at its own position, whatever was read before.
     Metrics run together in one group each see the maps they were configured with, even when the maps set the same quantities, and a map whose resolution does not match the pixel numbers is refused instead of misread.
     Reddening at a distance, the distance at which a magnitude is reached, star counts by volume and mass and numbers of young stars follow from those values by their definitions.""",
     ["inputs", "configurations", "histories"],
     "all sequences of maps, files, resolutions and points in one process",
     "the map tests need downloaded files and are skipped without them, and even then only look for the presence of a key; wrong pixels, stale caches and shared configurations give plausible numbers",
     ["rubin_sim/maf/maps/dust_map.py", "rubin_sim/maf/maps/dust_map_3d.py", "rubin_sim/maf/maps/ebv_3d_hp.py", "rubin_sim/maf/maps/ebv_hp.py", "rubin_sim/maf/maps/gal_coords_map.py", "rubin_sim/maf/maps/galactic_plane_priority_maps.py", "rubin_sim/maf/maps/stellar_density_map.py", "rubin_sim/maf/maps/trilegal_map.py", "rubin_sim/maf/metric_bundles/metric_bundle_group.py", "rubin_sim/maf/maf_contrib/star_counts/starcount.py", "rubin_sim/maf/maf_contrib/young_stellar_objects_metric.py"],
     [("eb_vhp", "dust lookup"), ("ebv_3d_hp", "3-D dust lookup"), ("galplane_priority_map", "priority lookup"), ("StellarDensityMap.run", "star densities"), ("DustMap3D.distance_at_dmag", "distance at a magnitude"), ("NYoungStarsMetric.run", "young stars")],
     "property-based testing: generated histories of map lookups against the synthetic map files they were written from",
     "Synthetic map files; every lookup, directly, through slicers and through groups, is compared with the arrays the files were written from.")

prop("C30", "Figures show the metric values, and drawing leaves the values alone",
     """Every figure shows exactly the metric values that are not masked, after the requested zeropoint and normalisation: histogram bins and heights (plain or cumulative), the value at every position of a sky map, power spectra, curves and bars over one or several axes, images, area curves, moving-object values against size or orbit, and visits through the night, within the requested limits, clipping and scale.
     Drawing changes neither the values and masks nor the settings it was given; in a combined figure every input is drawn once with its own settings, equal limits are kept and differing colour limits are spanned.
     File names, titles and labels are the same in every process.""",
     ["inputs", "configurations", "histories"],
     "all value arrays and masks, slicers, figure kinds, plot settings at every level and combinations of bundles, and every hash seed",
     "the plot tests draw a few arrays and look at nothing but the absence of an exception; a dropped bin, a mask that leaks back into the results, or a name that changes from run to run goes unnoticed",
     ["rubin_sim/maf/plots/plot_handler.py", "rubin_sim/maf/plots/spatial_plotters.py", "rubin_sim/maf/plots/oned_plotters.py", "rubin_sim/maf/plots/nd_plotters.py", "rubin_sim/maf/plots/two_d_plotters.py", "rubin_sim/maf/plots/mo_plotters.py", "rubin_sim/maf/plots/special_plotters.py", "rubin_sim/maf/plots/hourglass_plotters.py", "rubin_sim/maf/plots/night_pointing_plotter.py", "rubin_sim/maf/plots/neo_distance_plotter.py", "rubin_sim/maf/plots/xyplotter.py"],
     [("PlotHandler.plot", "combined figures"), ("PlotHandler._build_file_root", "names"), ("HealpixSkyMap", "sky maps"), ("BaseHistogram", "histograms"), ("TwoDSubsetData", "sums over axes"), ("MetricVsOrbit", "moving objects")],
     "property-based testing: generated values and settings against the data read back from the drawn artists",
     "The drawn artists (patches, lines, images, collections) are read back and compared with independently computed data; names are compared across processes with different hash seeds.")

prop("C03", "A metric's settings are kept, and every stage of a run leaves what it should",
     """A metric bundle keeps exactly the constraint, labels, stackers, maps, statistics, plotters, plot and display settings it was given (one item or a list), fills in the documented ones that were left out, refuses items of the wrong kind, and never changes the caller's lists and settings.
     Running all constraints at once or one by one, followed by any sequence of summarising, drawing and saving, leaves the same values, reduced values with the settings of their parent, statistics, files, figures and database records, exactly one for each metric that had visits and figure that could be drawn; metrics without visits are passed over without stopping the others.
     Clearing memory loses nothing that was saved.""",
     ["inputs", "histories", "configurations"],
     "all combinations of settings and metrics, and all orders of constraints and stages, with and without saving early, plots while running and clearing of memory",
     "tests run one or two fixed groups in the usual order with data for every constraint and do not look at records and files left behind",
     ["rubin_sim/maf/metric_bundles/metric_bundle.py", "rubin_sim/maf/metric_bundles/metric_bundle_group.py", "rubin_sim/maf/plots/plot_handler.py", "rubin_sim/maf/db/results_db.py"],
     [("MetricBundle.__init__", "settings"), ("MetricBundle.reduce_metric", "reduced values"), ("MetricBundleGroup.run_current", "running"), ("MetricBundleGroup.plot_current", "figures"), ("MetricBundleGroup.write_current", "files"), ("MetricBundleGroup.summary_current", "statistics")],
     "property-based testing: generated settings and generated sequences of stages against a model of values, files, figures and records",
     "Model of what each stage leaves in memory, on disk and in the results database, over generated groups and sequences of stages.")

prop("C35", "Standard batches use the visits, bands and names they announce",
     """Every standard batch of metrics can be built with its documented options, and each of its metrics uses exactly the visits that its label, its band and the extra selection ask for: never one outside the extra selection, whatever the selection's form and whichever column holds the band, and never a selection that no survey could meet.
     Each metric and band appears once, with the given run name, labels and slicer, under a file name of its own, needing only columns that the visits have.
     The statistics in a batch have the values their names say, and the caller's column map is left alone.""",
     ["inputs", "configurations"],
     "all batches, options, column maps, extra selections and labels, and all sets of visits",
     "tests build a handful of batches with default options and do not look at which visits each metric then uses; a constraint on the wrong column or a missing pair of brackets gives plausible numbers",
     ["rubin_sim/maf/batches/common.py", "rubin_sim/maf/batches/altaz_batch.py", "rubin_sim/maf/batches/metadata_batch.py", "rubin_sim/maf/batches/visitdepth_batch.py", "rubin_sim/maf/batches/time_batch.py", "rubin_sim/maf/batches/time_sci_batch.py", "rubin_sim/maf/batches/glance_batch.py", "rubin_sim/maf/batches/ddf_batch.py", "rubin_sim/maf/batches/info_batch.py", "rubin_sim/maf/batches/science_radar_batch.py", "rubin_sim/maf/batches/radar_limited.py", "rubin_sim/maf/batches/srd_batch.py", "rubin_sim/maf/batches/slew_batch.py", "rubin_sim/maf/batches/openshutter_batch.py", "rubin_sim/maf/batches/filterchange_batch.py", "rubin_sim/maf/batches/hourglass_batch.py", "rubin_sim/maf/batches/col_map_dict.py"],
     [("filter_list", "bands, selections and labels"), ("standard_summary", "statistics"), ("nvisitsPerNight", "visits per night"), ("glanceBatch", "quick look"), ("ddfBatch", "deep fields"), ("science_radar_batch", "science metrics"), ("col_map_dict", "column names")],
     "property-based testing: generated batch options and visits; the selection of every bundle is run in SQLite and compared with the visits its label asks for",
     "Selections are run in SQLite on generated visits and compared with those the labels, bands and extra selection ask for; values are compared with plain numpy.")

prop("C36", "The results browser shows every run, metric, figure and statistic as saved",
     """Started on any tracking database, the results browser lists every run with its information and answers every page, link and form it offers without an error.
     The pages of a run show each metric, caption, figure and summary statistic exactly as it was saved, under its own group, table row and column, once and only for the metrics chosen; nothing of another run or metric appears.
     Data, figures and databases that are downloaded are the saved files themselves, and a directory given on the command line is added and opened.""",
     ["inputs", "histories"],
     "all tracking and results databases, choices of metrics and groups, and pages",
     "no test starts the browser; its pages are templates in which a misspelt name shows up only as a blank cell or a failed page for particular contents",
     ["rubin_sim/maf/show_maf.py", "rubin_sim/maf/web/maf_run_results.py", "rubin_sim/maf/web/maf_tracking.py", "rubin_sim/maf/web/templates/macros.html", "rubin_sim/maf/web/templates/multicolor.html", "rubin_sim/maf/web/templates/results.html", "rubin_sim/maf/web/templates/metricselect.html", "rubin_sim/maf/web/templates/runselect.html"],
     [("show_maf", "the command"), ("DataHandler", "data downloads"), ("MafRunResults", "contents of a run"), ("MafTracking", "list of runs"), ("MakeStatTable", "tables of statistics")],
     "property-based testing: generated runs, metrics, figures and statistics; the real command is started and every page, link and form is followed and compared with a model",
     "Starts the command on generated databases, follows every page, link and form over loopback, and compares what is shown with what was saved.")

prop("C37", "Comparisons use the saved values of exactly the runs and metrics asked for",
     """Gathering results gives one row per run and one column per statistic, holding the saved values of all directories that have results and disturbing none; choosing runs, families, metrics or subsets returns exactly those, in the order asked for, with unchanged values.
     Normalised values are the ratio to the reference run or to the median of several, inverted where smaller is better and differences for magnitudes, and the figures made from them show these values under the right runs and metrics.
     Tables and lists of the caller are never changed, and a download puts each run asked for in its place without overwriting files unless told to.""",
     ["inputs", "configurations"],
     "all sets of result directories, summary tables, families, subsets, reference runs and flags",
     "tests need data from the network or check only the type and shape of the tables that come back",
     ["rubin_sim/maf/run_comparison/archive.py", "rubin_sim/maf/run_comparison/gather_summaries.py", "rubin_sim/maf/run_comparison/summary_plots.py", "rubin_sim/maf/run_comparison/radar_plot.py", "rubin_sim/maf/run_comparison/microlensing_compare.py"],
     [("combine_result_dbs", "gathering"), ("gather_summaries", "the command"), ("get_metric_summaries", "choosing"), ("normalize_metric_summaries", "normalisation"), ("normalize_for_radar", "normalisation for radar plots"), ("plot_run_metric", "lines"), ("plot_run_metric_mesh", "cells"), ("download_runs", "downloads"), ("get_results", "microlensing figures of merit")],
     "property-based testing: generated result directories, tables, families and subsets against a plain model; figures are read back from their artists",
     "Model of gathered, chosen and normalised values over generated databases and tables; drawn lines, cells and labels are compared with it; downloads from file addresses.")

NOT_APPLICABLE = []
