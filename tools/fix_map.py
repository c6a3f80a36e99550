FIX = {
    "TimeIntervalSlicer put": "C01", "VisitIntervalSlicer slice points": "C01", "NDSlicer and MovieSlicer equality": "C01",
    "sky slicers compared equal": "C02", "ran bundles with conflicting": "C04", "reduced metrics of the same name": "C04",
    "scrambled mask": "C04", "sky slicers restored": "C05", "MovieSlicer restored": "C05",
    "MetricBundle.output_json always": "C05", "JSON output of an unmasked": "C05", "read_all could not": "C05",
    "update_display overwrote": "C06", "add_run_to_database looked": "C07", "MafRunResults.get_json": "C07",
    "CountBeyondThreshold": "C09", "Coaddm5Metric returned": "C09", "YearCoverageMetric": "C09",
    "GeneralUniformityMetric": "C10", "PhaseGapMetric": "C10",
    "VisitGroupsMetric counted": "C11", "VisitGroupsMetric broke": "C11", "Accumulate vector": "C12",
    "collapse_night failed": "C12",
    "the linear multiband depth models": "C12",
    "Sed.multiply_sed and Sed.renormalize_sed": "C19",
    "Sed.clear_sed changed": "C19",
    "the SED cache file could not": "C19",
    "read_close__kurucz": "C19",
    "the dust laws were zero": "C19",
    "Sed.renormalize_sed could not": "C19",
    "Sed.write_sed wrote": "C19",
    "Sed.setup_phi_array failed": "C19",
    "products of spectra or throughputs": "C20",
    "Bandpass.read_throughput raised": "C20",
    "calc_m5 solved": "C21",
    "ChebyFits.write(append": "C22",
    "ChebyFits recorded": "C22",
    "ChebyFits raised": "C22",
    "ChebyValues raised": "C22",
    "ChebyValues.get_ephemerides gave": "C22",
    "ChebyFits left gaps": "C22",
    "DirectObs raised ValueError when only": "C23",
    "the rectangular footprint missed": "C23",
    "the rectangular footprint ignored": "C23",
    "Orbits with the same": "C24",
    "Orbits did not recognise": "C24",
    "Orbits.read_orbits accepted": "C24",
    "Orbits.read_orbits found": "C24",
    "updating the elements of a single": "C24",
    "Orbits.set_orbits raised": "C24",
    "hash the content of visits with string": "C27",
    "insert_nightly_stats kept a pooled": "C27",
    "selecting simulations by night without tags": "C27",
    "record_conda_env did not refuse half": "C27",
    "record_simulation_metadata failed on an integer": "C27",
    "sim_metadata_yaml wrote the simulated nights": "C28",
    "creation and comment times were shifted": "C27",
    "import_sim_from_yaml ignored the creation": "C28",
    "add_file overwrote the archived file": "C28",
    "dayobs_to_date failed on times": "C28",
    "get_sim_metadata failed on ISO": "C29",
    "get_sim_uuid never found": "C29",
    "scheduler configurations with a get_scheduler": "C29",
    "fetch_sim_for_nights changed the stackers": "C29",
    "fetch_sim_stats_for_night failed on nights": "C29",
    "SaturationStacker dropped the magnitudes": "C17",
    "SaturationStacker failed when given zeropoints": "C17",
    "stackers recorded the wrong units": "C17",
    "Dcr2Stacker failed when given": "C17",
    "EclipticStacker could not subtract": "C17",
    "NFollowStacker swapped latitudes": "C17",
    "WFDlabelStacker failed on a single": "C17",
    "stackers with public methods were never": "C17",
    "the zeropoint of a bandpass sampled more coarsely": "C20",
    "TotalPowerMetric was NaN with masked": "C13",
    "StaticProbesFoMEmulatorMetricSimple always failed": "C13",
    "AreaSummaryMetric failed when every value": "C13",
    "MultibandMeanzBiasMetric used the model": "C13",
    "ParallaxCoverageMetric failed without": "C14",
    "ParallaxCoverageMetric misjudged": "C14",
    "RadiusObsMetric was NaN": "C14",
    "RadiusObsMetric recorded": "C14",
    "ParallaxDcrDegenMetric did not": "C14",
    "ParallaxDcrDegenMetric was NaN": "C14",
    "astrometric metrics failed with stellar": "C14",
    "the colors of L3": "C14",
    "GalPlaneSeasonGapsTimescaleMetric reordered": "C32",
    "GalPlaneSeasonGapsTimescaleMetric did not": "C32",
    "NgalScaleMetric used": "C32",
    "ExgalM5WithCuts ignored": "C32",
    "SFUncertMetric failed with": "C32",
    "SurfaceBrightLimitMetric coadded": "C32",
    "ColorSlopeMetric ignored": "C32",
    "ChipVendorMetric returned": "C32",
    "DiscoveryMetric pointed at the wrong visits": "C15",
    "DiscoveryMetric lost a night when": "C15",
    "DiscoveryVelocityMetric could not be created": "C15",
    "MagicDiscoveryMetric mixed up": "C15",
    "HighVelocityNightsMetric returned the time": "C15",
    "ActivityOverTimeMetric counted one window": "C15",
    "InstantaneousColorMetric counted visits in any later night": "C15",
    "pha_dndh_grav always failed": "C16",
    "the completeness metrics ignored the slope": "C16",
    "MoCompletenessMetric binned metric values": "C16",
    "MoCompletenessAtTimeMetric could not be created without": "C16",
    "MoMetricBundleGroup ran the stackers of incompatible": "C16",
    "a failed plot of a moving object bundle stopped": "C16",
    "MoObjSlicer failed for objects named by strings": "C16",
    "joining moving object metrics of subsets failed": "C16",
    "the solar system script for split populations": "C16",
    "the solar system script mixed up runs": "C16",
    "run_fraction_summary used the H value": "C16",
    "run_moving_calc failed without the optional": "C16",
    "SkyModel.set_params failed for a single point": "C31",
    "SkyModel.set_params measured the distance": "C31",
    "SkyModel.return_mags failed after set_params": "C31",
    "SkyModel zeroed the wrong points": "C31",
    "SkyModel failed for a single point given": "C31",
    "twilight spectra failed with the Sun above": "C31",
    "the satellite ModelObservatory could not be constructed": "C26",
    "the satellite ModelObservatory returned conditions": "C26",
    "Constellation.check_pointings failed with a single": "C26",
    "Constellation.check_pointings failed for visits shorter": "C26",
    "importing rubin_sim.selfcal before rubin_sim.maf": "C25",
    "NoOffset returned a structured array": "C25",
    "generate_catalog divided the default field of view": "C25",
    "fix: TransientMetric failed when survey_start": "C34",
    "fix: TransientMetric mixed visits of two": "C34",
    "TransientMetric counted visits below the limit": "C34",
    "TransientMetric let further filters": "C34",
    "GRBTransientMetric failed when survey_start": "C34",
    "GRBTransientMetric mixed visits": "C34",
    "GRBTransientMetric only counted": "C34",
    "PeriodicMetric used np.float": "C34",
    "the outbursts of X-ray binaries were not": "C34",
    "MicrolensingMetric took the logarithm": "C34",
    "SNSLMetric ignored its mjd_col": "C34",
    "SNSLMetric returned NaN": "C34",
    "PeriodicStarModulationMetric never fitted": "C34",
    "FilterPairTGapsMetric with allgaps=False": "C34",
    "ebv_3d_hp returned the first map": "C18",
    "galplane_priority_map ignored map_path": "C18",
    "eq_gal3 used astropy": "C18",
    "noise_calc solved a function": "C18",
    "StarCountMetric and StarCountMassMetric could not be run": "C18",
    "applied one bundle's maps to bundles": "C18",
    "got one magnitude each instead of the star map bins": "C18",
    "MetricVsOrbitPoints could not draw its background": "C30",
    "NightPointingMetric returned time objects": "C30",
    "names and titles of combined figures differed": "C30",
    "PlotHandler dropped color_min": "C30",
    "PlotHandler reset xlim and ylim": "C30",
    "HealpixPowerSpectrum drew each spectrum": "C30",
    "HealpixSkyMap of a non-healpix slicer averaged": "C30",
    "HealpixSkyMap masked the metric bundle": "C30",
    "HealpixSkyMap with a log scale": "C30",
    "NightPointingPlotter looked for columns": "C30",
    "MetricVsH changed the plot settings": "C30",
    "MetricVsOrbit and MetricVsOrbitPoints could not find": "C30",
    "OneDSubsetData used slicer attributes": "C30",
    "TwoDSubsetData used slicer attributes": "C30",
    "VisitPairsHist left out": "C30",
    "TwoDMap could not combine": "C30",
    "TwoDMap masked the metric bundle": "C30",
    "MetricBundle did not accept a single plotter": "C03",
    "MetricBundle did not accept a single map": "C03",
    "MetricBundle.plot failed when given a plotter": "C03",
    "MetricBundle failed when zp or norm_val": "C03",
    "MetricBundleGroup stages failed when": "C03",
    "names of the standard statistics": "C35",
    "phaseGap could not be built": "C35",
    "nvisitsPerSubset failed": "C35",
    "astrometryBatch y band": "C35",
    "intraNight band pairs": "C35",
    "glanceBatch applied": "C35",
    "standard batches select bands": "C35",
    "ddfBatch used visits": "C35",
    "local volume dwarf metrics had no visits": "C35",
    "the riz metrics used": "C35",
    "radar_limited could not be built": "C35",
    "the data of a metric could not be downloaded": "C36",
    "choosing the metrics of a group failed": "C36",
    "names and labels of metrics were left blank": "C36",
    "the sky maps linked to a page without metrics": "C36",
    "combined and hourglass plots were missing from the multicolor page": "C36",
    "the multicolor page failed for maps other than SkyMap": "C36",
    "show_maf -d did not open the directory it was given": "C36",
    "a directory without results ended the gathering": "C37",
    "normalize_metric_summaries failed for duplicate metrics": "C37",
    "plot_run_metric failed for a single run or metric": "C37",
    "microlensing_compare could not read results back from disk": "C37",
    "events without a number of points were not set aside": "C37",
    "bad value is NaN were not masked": "C04",
    "given both bins and bin limits": "C01",
    "visits of an earlier setup stayed in the slices of time interval slicers": "C01",
    "time interval slicers could not be compared before setup and ignored their columns": "C01",
    "time interval slicers were restored from disk with their default settings": "C05",
    "BlockIntervalSlicer failed with another note column when the visits also had a scheduler_note": "C05",
    "Orbits.set_orbits changed the caller's table": "C24",
    "ChebyValues.set_coefficients changed the coefficients of the fits it was given": "C22",
    "run_prenight_sim lost its results and failed when no results directory was given": "C38",
    "drive_sim raised IndexError when rewards were kept but not recorded": "C38",
    "drive_sim raised TypeError after the simulation and removed its results": "C38",
    "rewards were not saved with a simulation when only one of their tables was given": "C38",
    "results of simulations could not be saved when the USER variable is not set": "C38",
    "make_sim_data_dir changed the caller's metadata": "C38",
    "the last night recorded for a simulation of part of a day was before its first night": "C38",
    "simulations of the default duration were recorded without their last night": "C38",
    "files archived by archive_sim were recorded under their paths instead of their types": "C38",
    "the latest prototype simulation was passed over when its number was below that of an earlier day's": "C38",
    "choosing among prototype simulations failed when one of them had no tags": "C38",
    "loading a prototype simulation raised TypeError when none fits instead of returning None": "C38",
    "loading a prototype simulation added a stacker to the caller's arguments": "C38",
    "the older fetch_sim_for_nights changed the list of stackers of the caller and accepted no other sequence": "C38",
    "fetch_sim_for_nights put its stackers into the caller's arguments": "C29",
    "the scheduler version given for a simulation was replaced by that of the installed scheduler": "C38",
    "metadata of prototype simulations could not be compiled when none of them has tags or arguments": "C38",
    "a bundle saved with a suffix was recorded under a file name without it": "C05",
    "outbursts of X-ray binaries were the same for every seed of their population": "C34",
    "microlensing events were put into the pixel before the one drawn": "C34",
    "masked points were averaged into the healpix maps of HpxmapPlotter": "C30",
    "HpxmapPlotter failed to mask low values when nothing was masked before": "C30",
    "HpxmapPlotter failed for slicers of points without a resolution in its settings": "C30",
    "hourglass plots failed when all values were equal": "C30",
    "the months of a year of hourglass plots had color scales that differed from the color bar": "C30",
    "hourglass plots in civil time gave hours after midnight of UTC": "C30",
    "hourglass plots ignored their time zone": "C30",
    "hourglass plots of another site had twilights of Cerro Pachon": "C30",
    "hourglass plots of a range of dates failed, and lines were off for other y ranges": "C30",
    "categories had colors that differed between the months of a year of hourglass plots": "C30",
    "hourglass plots drew masked values when all others were equal": "C30",
}
KNOWN = [
    {"property": "C15", "key": "discovery-nobs", "what": "DiscoveryNObsMetric counts one observation too few in the discovery track (an existing test pins the value)"},
    {"property": "C15", "key": "activity-tperi", "what": "ActivityOverPeriodMetric with a time of perihelion does not turn the phase into an angle (an existing test pins the value)"},
    {"property": "C35", "key": "glance-comcam", "what": "glanceBatch(slicer_camera='ComCam') fails: the documented ComCam slicer is not part of the package any more"},
]
