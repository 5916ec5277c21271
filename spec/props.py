NOT_APPLICABLE = []
PROPS = []


def P(**k):
    PROPS.append(k)


P(
    id="C01",
    title="The multilayer snowpack conserves water mass in every time step",
    statement="In every time step and for every pixel of the multilayer snow model, the change of snow water equals snowfall plus rainfall minus snowpack runoff minus sublimation (deposition counted negative), and the ice and liquid phases balance separately via the reported melt and refreezing amounts. Melt, refreezing and runoff are never negative, no more ice or water is removed than is present, and rain on snow-free ground runs off in the same step. Missing forcing of a step never creates or destroys snow.",
    over=["histories", "configurations", "inputs"],
    quant="For every weather history, every layer configuration, liquid-water/compaction/albedo option and model time step.",
    why="The existing snow tests need downloaded data (not runnable offline) and sample single trajectories; leaks appear only for particular sequences such as accumulation, melt-out of a layer and redistribution.",
    files=["openamundsen/modules/snow/multilayermodel.py", "openamundsen/modules/snow/snow.py", "openamundsen/model.py"],
    mech=[("layer update redistributes mass between layers", "multilayermodel._update_layers"), ("melt/sublimation/runoff loops", "multilayermodel._melt/_sublimation/_runoff"), ("accumulation", "multilayermodel.add_snow")],
    state=[("ice and liquid water content", "kg m-2 per layer", "model.state.snow")],
    observe=["model.state.snow after run_single()", "reported melt, refreezing, sublimation, runoff"],
    technique="explicit-state exploration of all weather words up to a bound on the real model, with a mass-balance monitor on every transition",
    note="All 11-letter words of length 4 (quick) from the empty state plus all 8-letter suffixes from deep/ripe/thin packs and 4-letter words of length 7, for 5 configurations and 3 time steps; the real compiled model executes every word. Values outside the alphabet are not covered; layers < 1e-6 m may be dropped (2e-3 kg m-2).",
)
P(
    id="C02",
    title="The cryospheric layer model conserves water mass in every time step",
    statement="In every time step and for every pixel of the new snow/old snow/firn/ice model, the change of stored water equals snowfall plus rainfall minus runoff minus sublimation (deposition negative), and ice and liquid phases balance separately via reported melt and refreezing. Layer transitions only move mass between layers. Melt, refreezing and runoff are never negative and never exceed what is available, and rain on bare ground runs off in the same step.",
    over=["histories", "configurations", "inputs"],
    quant="For every weather history (also across the seasonal firn transition), melt method, layer transition threshold and time step.",
    why="Only single trajectories are sampled by the existing tests and these need data that are not available offline; transition and melt-out combinations need particular histories.",
    files=["openamundsen/modules/snow/cryolayermodel.py", "openamundsen/modules/snow/snow.py", "openamundsen/surface.py"],
    mech=[("layer transition merges layers", "cryolayermodel.layer_transition"), ("melt, refreezing, sublimation, runoff", "cryolayermodel")],
    state=[("ice and liquid water content", "kg m-2 per layer", "model.state.snow")],
    observe=["model.state.snow after run_single()"],
    technique="explicit-state exploration of all weather words up to a bound on the real model, with a mass-balance monitor on every transition",
    note="Same word spaces as C01 for 5 cryolayer configurations (energy balance with both iteration methods, temperature index, enhanced temperature index, early transitions). Values outside the alphabet are not covered.",
)
P(
    id="C03",
    title="Snow and surface state stays physical and self-consistent",
    statement="After every time step all layer masses and thicknesses are finite and non-negative, total snow water and depth are the sums over the layers, the layer count and density match them, layers are contiguous from the top with their prescribed thicknesses, liquid water stays within the holding capacity, and cold content is zero in empty layers and bounded. Snow temperature and the temperature of a snow-covered surface never exceed the melting point, and snow and surface albedo and the snow cover fraction stay within their configured bounds. A data gap never turns any of these into missing values.",
    over=["histories", "configurations", "inputs"],
    quant="For every weather history including gaps, both snow models, every layering/albedo/liquid-water/iteration option and time step.",
    why="The invariants must hold after every step of every history; the existing tests check a handful of final values.",
    files=["openamundsen/modules/snow/multilayermodel.py", "openamundsen/modules/snow/cryolayermodel.py", "openamundsen/modules/snow/snow.py", "openamundsen/surface.py"],
    mech=[("layer update", "multilayermodel._update_layers"), ("property update", "snow.snow_properties"), ("surface state", "surface.py")],
    state=[("snow and surface state", "per layer and per pixel", "model.state.snow / model.state.surface")],
    observe=["model.state after run_single()"],
    technique="explicit-state exploration of all weather words up to a bound on the real model, invariants evaluated in every state",
    note="All words as in C01/C02 over 10 configurations; invariants evaluated after every step on the real state arrays.",
)
P(
    id="C04",
    title="Energy and radiation budgets close at the surface, in the snow and in the soil",
    statement="In every time step net radiation is the balance of its four components, outgoing radiation and sensible and latent heat fluxes match the resulting surface state and point in the physically correct direction, sublimation carries the latent heat flux as long as ice is available, and melt (plus cold content reduction) uses exactly the surplus of the surface energy balance. In the multilayer model the heat content of the snowpack changes exactly by the conducted heat fluxes at its boundaries (calm, dry, frozen conditions), the soil heat storage by the soil heat flux, and surface temperature, fluxes (with roughness, stability and measurement height corrections), snow and soil temperatures follow the documented linearised balance and implicit conduction. For the cryolayer model the balance is closed at the iterated surface temperature, there is no melt at air temperatures below freezing, and cold content and refreezing use exactly the energy deficit.",
    over=["histories", "configurations", "inputs"],
    quant="For every weather history, layer/soil configuration, time step and snow model with energy balance melt.",
    why="Existing tests do not check any energy flux; errors in sign or in a boundary condition need particular temperature gradients and layerings.",
    files=["openamundsen/surface.py", "openamundsen/modules/snow/multilayermodel.py", "openamundsen/modules/snow/cryolayermodel.py", "openamundsen/modules/soil/soil.py"],
    mech=[("surface energy balance", "surface.energy_balance"), ("snow heat conduction", "multilayermodel._heat_conduction"), ("soil temperatures", "soil.soil_temperature")],
    state=[("fluxes and temperatures", "W m-2, K", "model.state.surface/meteo/snow/soil")],
    observe=["model.state after run_single()"],
    technique="explicit-state exploration of all weather words up to a bound on the real model, with energy-balance monitors on every transition",
    note="Exact conduction balance on all calm words (4 letters, length 4/6) from 4 snow depths and 4 layerings; flux identities and melt energy on all words of length 3 from 4 start states for 10 configurations and 3 time steps; every transition of 8 multilayer and 5 cryolayer configurations compared with an independent energy balance model (all words of length 3, and of length 2 from 3 snow-covered states; thorough 4).",
)
P(
    id="C06",
    title="Gridded outputs contain exactly the configured values at the configured dates",
    statement="For every output frequency, aggregation and explicit date list, gridded outputs are produced exactly at the specified dates, contain the model state of that time step (instantaneous) or the sum/mean over all time steps since the previous output (aggregated, each time step in exactly one interval), and carry matching time bounds, units, coordinates and georeference. This holds identically for all formats (memory, NetCDF with and without append and compression, ASCII, GeoTIFF) and layouts, for 2- and 3-dimensional variables, missing values and pixels outside the region of interest, and everything due so far is in the output after every time step. Invalid output specifications are rejected at initialization.",
    over=["configurations", "histories", "crash_points"],
    quant="For every model time step, start date, run length, output frequency, aggregation, format, layout and region of interest.",
    why="The existing output tests need downloaded data and sample a few frequencies and starts; off-by-one intervals depend on the combination of start time, time step and calendar frequency.",
    files=["openamundsen/fileio/griddedoutput.py", "openamundsen/util.py"],
    mech=[("write date calculation", "griddedoutput._freq_write_dates"), ("aggregation", "griddedoutput.GriddedOutputManager.update"), ("roi pixel conversion", "util.convert_roi_pixel_dataset_to_grid")],
    state=[("aggregation buffers and output dataset", "per field", "model.gridded_output")],
    observe=["model.gridded_output.data", "output files in the results directory"],
    technique="exhaustive enumeration of output configurations on the real output manager driven by scripted states, compared step by step with a reference model of dates and aggregation",
    note="All frequencies x aggregations for 5 time steps and up to 11 start/length combinations, all subsets of explicit dates, 7 formats x 2 layouts x 3 ROIs x gaps; values are scripted and pairwise distinct; begin-anchored aggregation is rejected by current pandas and excluded.",
)
P(
    id="C05",
    title="Only the region of interest is computed, each pixel independently",
    statement="For every region of interest, no meteorological field, storage or flux of a pixel outside of it is ever computed or changed, and a pixel inside evolves exactly as it does in a run over any other region containing it (apart from the documented spatial coupling via mean albedo and terrain reflections in daylight). Pixels without a valid elevation never belong to the region of interest, and without a region-of-interest file it comprises all pixels with a valid elevation.",
    over=["inputs", "configurations", "histories"],
    quant="For every region-of-interest mask, snow model, enabled submodule and weather history, with prescribed or interpolated forcing.",
    why="A handful of masks in a test never exercises the index mappings between 2-D grids and ROI pixels for all shapes; leaks between pixels show only for particular masks.",
    files=["openamundsen/model.py", "openamundsen/meteo/interpolation.py", "openamundsen/snowmodel.py", "openamundsen/modules/snow", "openamundsen/modules/canopy", "openamundsen/modules/evapotranspiration", "openamundsen/surface.py"],
    mech=[("pixel loops over roi_idxs", "snow/soil/surface numba kernels"), ("boolean roi indexing", "all submodules"), ("ROI reading", "model.OpenAmundsen (input reading, grid initialization)")],
    state=[("all state variables", "2-D and 3-D arrays", "model.state")],
    observe=["model.grid.roi", "model.state after every run_single()", "gridded output"],
    technique="exhaustive enumeration of all ROI masks of a small grid on the real model, each compared state by state with the full-grid run (non-interference)",
    note="All 63 masks of a 2x3 grid (thorough: all 511 of 3x3) for 8 configurations, per-pixel weather words at night and uniform words in daylight, station-interpolated forcing, and a missing elevation at each pixel. Four whole-grid diagnostics (surface albedo, roughness, snow cover fraction, runoff) are excluded from the outside-ROI assertion.",
)
P(
    id="C07",
    title="Point outputs contain exactly the model values at the output points",
    statement="For every set of output points, variables, write frequency and format (NetCDF, CSV, memory), the point time series contain exactly one value per model time step, point and variable: the state of the grid pixel containing the point at the end of that step, for stations in the region of interest (by default) and the configured points, with their coordinates, elevation and units. After every write the output holds everything due so far, nothing is lost, duplicated or reordered across writes, stale files of earlier runs never leak in, and a crash between time steps loses at most the data since the last due write. Duplicate names, unknown variables and points outside the grid are rejected at initialization.",
    over=["configurations", "histories", "crash_points"],
    quant="For every model time step, output and write frequency, run length, point set, variable list, format and crash point.",
    why="The existing point output tests need downloaded data; boundaries between write chunks and aggregation intervals depend on combinations of frequency, start date and length.",
    files=["openamundsen/fileio/pointoutput.py", "openamundsen/model.py"],
    mech=[("resampling and write chunks", "pointoutput.PointOutputManager.update/_write"), ("point to pixel mapping", "pointoutput"), ("netcdf/csv append", "pointoutput")],
    state=[("buffered point data", "per point and variable", "model.point_output")],
    observe=["model.point_output.data", "output files after every time step"],
    technique="exhaustive enumeration of output configurations and crash points on the real output manager driven by scripted states, compared with a reference model",
    note="All combinations of 5 time steps, output/write frequencies, starts and lengths, all point subsets of a 2x3 grid, formats and truncation points; values are scripted and pairwise distinct.",
)
P(
    id="C08",
    title="Every time step is executed exactly once, in order, however the run is driven",
    statement="The model covers exactly the configured dates, each time step advances date and index by one, and running it with run(), with repeated run_single() or any mixture gives identical states and outputs; steps beyond the end are rejected without changing anything. The time step properties (first/last of day, month, year and run, strict and non-strict) are correct for every step. A failing time step or callback propagates and leaves global settings (number of threads) as they were.",
    over=["histories", "configurations", "crash_points"],
    quant="For every operation sequence (initialize, run, run_single, inspection), time step, start and end date, and fault position.",
    why="Unit tests run a model to its end once; order of operations and faults in the middle of a run are not sampled.",
    files=["openamundsen/model.py", "openamundsen/util.py"],
    mech=[("run loop", "OpenAmundsen.run/run_single/_process_next_time_step"), ("time step properties", "OpenAmundsen.timestep_props")],
    state=[("date index, date", "model position", "model.date_idx/date")],
    observe=["model.date, date_idx, timestep_props", "states and outputs", "exceptions", "numba thread count"],
    technique="exhaustive enumeration of operation words and fault positions on the real model against a reference automaton",
    note="All operation words up to length 5 (quick) over run/run_single/inspect, every fault position, 5 time steps x start dates around day, month, year and leap-day boundaries.",
)
P(
    id="C11",
    title="Configurations are parsed completely, strictly and without side effects",
    statement="Parsing a configuration returns exactly the user's values plus the defaults of all other options (land cover parameters merged per class, deprecated names and methods translated, date-only end dates extended to the last time step of the day, precipitation phase thresholds in degrees C converted), never alters the passed dictionary or other parsed configurations, and parsing the result again, also via YAML, changes nothing. Unknown options, values of the wrong type or outside the allowed values or limits, missing required options, geographic coordinate systems, start/end dates not matching the time step and inconsistent combinations (melt methods, degree day and albedo factors, glaciers with the multilayer model, write frequencies of time steps longer than a day) are rejected with a ConfigurationError.",
    over=["configurations", "inputs"],
    quant="For every option, every value of its alphabet, all pairs of options, and every combination of start/end date format, time step, snow model, melt method and glacier setting.",
    why="Tests sample a handful of options; the schema has 157 of them on 40 levels with interactions.",
    files=["openamundsen/conf.py", "openamundsen/data/configschema.yml", "openamundsen/data/land_cover_class_params.yml", "openamundsen/data/land_cover_class_schema.yml"],
    mech=[("schema validation and defaults", "conf.parse_config"), ("cross-field rules", "conf.validate_config"), ("end dates", "conf._parse_end_date")],
    state=[("parsed configuration", "nested options", "oa.parse_config(), model.config")],
    observe=["return value of oa.parse_config()", "ConfigurationError", "passed dictionary"],
    technique="exhaustive enumeration of options, values, option pairs, date/time step and rule combinations parsed by the real code, compared with a frozen option table and reference rules",
    note="157 options x all alphabet values and invalid values, unknown keys on every level, 14 time steps x 84 date pairs, 4 snow models x melt/glacier/albedo rules; option pairs by a covering design of single-valued settings (quick) or all pairs (thorough). Nested land cover parameters (leaf_area_index) replace the default as a whole.",
)
P(
    id="C12",
    title="Runs are deterministic and isolated from each other",
    statement="The result of a run depends only on its configuration and inputs: resetting diagnostic variables, the number of threads, other models running interleaved in the same process, or copying or pickling the model in mid-run and continuing the copy never change any state or output. The user's configuration and meteorological data are never modified.",
    over=["schedules", "histories", "configurations"],
    quant="For every interleaving of two models, number of threads, checkpoint position and submodule configuration.",
    why="Hidden shared state and stale values appear only under specific interleavings and checkpoint positions.",
    files=["openamundsen/model.py", "openamundsen/statevars.py", "openamundsen/conf.py", "openamundsen/modules"],
    mech=[("state reset and retain flags", "statevars.StateVariableManager.reset"), ("parallel numba loops", "numba prange kernels"), ("parameter objects", "conf.Configuration")],
    state=[("all state variables", "arrays", "model.state")],
    observe=["all state variables after every step", "user configuration and dataset before/after"],
    technique="exhaustive enumeration of the interleavings of two real models, thread counts and checkpoint positions, every state compared with the isolated run",
    note="All interleavings of two 3-step models over configuration pairs, thread counts 1-4 with compiled code, deepcopy and pickle at every step for 4 configurations, 32 single differences between two models x all merges of their operations in fresh processes.",
)
P(
    id="C09",
    title="Station data reaches the model resampled, filtered and located correctly",
    statement="For CSV and NetCDF files of every native frequency that divides the model time step, every station series holds exactly the model dates, with precipitation summed (missing if any part is missing), gusts as maximum, wind directions as vector mean, other variables as instantaneous or (if aggregated or daily) mean values over the time step ending at (daily: starting at) the date, out-of-range values removed and units converted. Exactly the stations selected by bounds, exclude and include that have data are used under their exact IDs, with their names, coordinates and altitude; other frequencies, wrong units, incomplete files and insufficient coverage are rejected with a MeteoDataError, and without the missing data checks every remaining gap becomes missing values.",
    over=["inputs", "configurations"],
    quant="For every combination of native frequency, model time step, aggregation setting, file format, start hour, file period, gap pattern, station rule and filter.",
    why="No existing test of the stable suite reads station data; the result depends on the combination of frequencies, offsets and covered periods.",
    files=["openamundsen/fileio/meteo.py", "openamundsen/forcing.py"],
    mech=[("slicing and resampling", "_slice_and_resample_dataset, _resample_dataset"), ("station rules", "_apply_station_rules"), ("units", "forcing.make_point_dataset")],
    state=[("station data", "per station, date and variable", "model.meteo")],
    observe=["model.meteo after initialize(), MeteoDataError"],
    technique="exhaustive enumeration of file frequencies, periods, gap patterns, station rules and filters written to files and read by the real model, compared with a reference resampler",
    note="4 native x 11 target frequencies (19 pairs in quick), 3 start hours, 4-5 leads, 3 gap patterns; 66 pairs of covered periods x 3 steps x both check settings; all exclude/include subsets of 4 stations up to total size 3 (thorough: all); 25 positions around the grid limits.",
)
P(
    id="C10",
    title="Station data are interpolated exactly by the configured trend and distance",
    statement="For every set of stations and every pattern of available records, the interpolated temperature, precipitation, humidity and wind fields equal inverse-distance weighting of the residuals plus the configured elevation trend (regression, monthly lapse rate, fractional or adjustment-factor), with or without extrapolation beyond the elevation range of the stations and with terrain-adjusted winds if configured. Stations without a record do not contribute, the order of the stations is irrelevant, and a field is missing only if no station has data (precipitation is then zero). Humidity stays within 0-100 %, precipitation is never negative and wind speed never falls below its minimum.",
    over=["inputs", "configurations", "histories"],
    quant="For every availability pattern per variable, station layout (equal elevations, identical locations, at sea level, far away), trend method, extrapolation flag, month and region of interest.",
    why="The existing interpolation tests need downloaded data; degenerate layouts (equal elevations, one station left, zero values) occur only for particular gap patterns.",
    files=["openamundsen/meteo/interpolation.py", "openamundsen/interpolation.py", "openamundsen/meteo/atmosphere.py"],
    mech=[("trend, residual, retrend", "interpolation.interpolate_param / meteo interpolation"), ("inverse distance weights", "interpolation.idw"), ("terrain wind weights", "liston wind")],
    state=[("meteorological fields", "2-D fields per step", "model.state.meteo")],
    observe=["model.state.meteo after every run_single()"],
    technique="exhaustive enumeration of availability patterns x station layouts x interpolation options on the real model against a boring reference interpolation",
    note="All temperature x humidity availability masks of 3 (thorough 4) stations for 5 layouts and all trend/extrapolation combinations, all 24 station orders, all months; piecewise regression is only compared with exact piecewise linear data (0.3 K).",
)
P(
    id="C13",
    title="Precipitation correction and phase partitioning are exact and conserve mass",
    statement="For every combination of air temperature, humidity, wind and precipitation, snowfall and rainfall are the configured fractions (air or wet-bulb temperature, threshold and transition range, optionally no snow below rain) and add up to the precipitation, and they are missing only where the precipitation is. Every chain of precipitation corrections (constant, WMO, Kochendorfer, snow redistribution factors) multiplies exactly the documented factors for the configured gauge, using interpolated values for missing measurements, never turns dry into wet steps, leaves rain alone where it must, changes nothing but precipitation, and never modifies the forcing data of the user.",
    over=["inputs", "configurations"],
    quant="For every temperature/humidity/wind/precipitation combination including gaps, phase option, correction chain and gauge.",
    why="The existing tests sample few values and need downloaded data; the cases depend on the combination of gauge, phase and missing variables.",
    files=["openamundsen/meteo/precipcorr.py", "openamundsen/meteo/atmosphere.py", "openamundsen/model.py"],
    mech=[("phase partitioning", "model._process_meteo_data / precipitation"), ("gauge corrections", "precipitation correction of the station data"), ("snow redistribution factors", "applied to the snowfall grid")],
    state=[("precipitation fields", "kg m-2 per step", "model.state.meteo.precip/snowfall/rainfall")],
    observe=["model.state.meteo after run_single()", "model.meteo"],
    technique="exhaustive enumeration of forcing letters x phase options x correction chains on the real model against reference formulas",
    note="All products of 8 temperatures, 4 humidities and 4 precipitation amounts for 18 phase options; 270 station letters x 3 companion patterns for 40+ correction chains; all temperature words over 4 (5) pixels for the no-snow-below-rain option. Wet-bulb tolerance 0.02 K.",
)
P(
    id="C14",
    title="The canopy conserves intercepted snow and modifies the meteorology as defined",
    statement="In every time step and for every forest pixel, the intercepted load changes exactly by interception minus sublimation minus unloading, snowfall below the canopy is the snowfall above minus interception plus unloading, all of these are non-negative and never exceed what is available or the storage capacity, and a data gap never turns the load into missing values. Temperature, humidity, wind and radiation below the canopy follow from the above-canopy values and the effective leaf area index, which follows the growing season of each land cover class, while pixels without forest are left alone.",
    over=["histories", "configurations", "inputs"],
    quant="For every weather history including gaps, land cover class, canopy parameter set, growing season and time step.",
    why="There is a single canopy test (needing downloaded data); leaks show only for particular histories such as leaf fall below an intercepted load or gaps.",
    files=["openamundsen/modules/canopy/canopy.py", "openamundsen/landcover.py"],
    mech=[("interception, sublimation, unloading", "canopy.CanopyModel"), ("leaf area index", "land cover LAI calculation")],
    state=[("intercepted load", "kg m-2", "model.state.snow.canopy_intercepted_load")],
    observe=["model.state.snow.canopy_*", "model.state.meteo (top_canopy_*)", "model.state.land_cover.lai"],
    technique="explicit-state exploration of all weather words up to a bound on the real model for all forest classes, every transition compared with a reference canopy",
    note="All words over up to 11 letters (length 2-5 after snowy prefixes) for 3 time steps, 6 land cover classes, 2 parameter sets and growing seasons compressed to days.",
)
P(
    id="C17",
    title="Terrain parameters, shadows and sky view factor follow the DEM",
    statement="Slope and aspect are Horn's finite differences with repeated edge pixels (aspect clockwise from north, downslope; DEMs smaller than 3x3 are level), the surface normal follows Corripio's cell scheme, curvature and openness follow Liston and Yokoyama, and the results depend on neither the number of threads nor a previous call. A pixel is in the shadow exactly if terrain toward the sun on its scanning line rises above the line of sight, for every sun azimuth and elevation, number of sweeps, extended DEM and downsampling factor; direct clear-sky irradiance vanishes exactly in the shadow or on slopes facing away, and all shortwave irradiance while the sun is down. The sky view factor is the mean squared cosine of the horizon angles over all directions, lies within 0-1, and is written to and read back from its raster file without being altered beyond the written precision.",
    over=["inputs", "configurations", "schedules"],
    quant="For every DEM, resolution, sun position, number of sweeps, downsampling factor, extended grid and number of threads.",
    why="Terrain routines are index arithmetic whose mistakes show only for particular shapes, directions or edges; existing tests sample a few slopes and aspects only.",
    files=["openamundsen/terrain.py", "openamundsen/modules/radiation/shadows.py", "openamundsen/modules/radiation/irradiance.py", "openamundsen/model.py"],
    mech=[("terrain parameters", "slope_aspect, normal_vector, sky_view_factor, curvature, openness"), ("shadows", "modules.radiation.shadows"), ("reading/calculating sky view factors, extended grids", "OpenAmundsen._read_input_data, _read_extended_grids")],
    state=[("terrain parameters", "per pixel", "model.state.base"), ("clear-sky irradiance", "per pixel", "model.state.meteo")],
    observe=["openamundsen.terrain functions", "openamundsen.modules.radiation.shadows()", "model.state.base", "model.state.meteo.{dir,diff,sw}_in_clearsky"],
    technique="exhaustive enumeration of small DEMs x sun directions x elevations on the real (compiled) code, compared with brute-force reference models; structured larger DEMs, model runs over whole days, thread counts 1/2/4",
    note="All 19683 3x3 DEMs over three levels (slope: all, shadows: all or every second per elevation), all 512 two-level DEMs for the sky view factor, 6 terrain families x 10 shapes x ~44 azimuths x 5 elevations x 3 sweep settings, whole-day model runs for 16 grid/downsampling/sweep settings x 3 days.",
)

P(
    id="C18",
    title="Irradiance: sun position, clear-sky radiation, cloudiness and longwave radiation",
    statement="For every date, location, timezone and data timezone the sun position follows the cited equations, direct and diffuse clear-sky irradiance follow the parametric transmittance model with the configured parameters, the mean surface albedo, terrain shading and sky view, their sum is the clear-sky global irradiance, and all of them are zero while the sun is down. The cloud factor of a step is obtained by the configured method from the stations providing the required data in that step (prescribed fractions; measured over clear-sky irradiance for stations in the region of interest or extended grid; humidity at the pressure level), falling back in the documented order only if allowed - at night to the configured night method, finally to the previous step's value or 0.75 - and is interpolated, limited to 0-1, converted to the cloud fraction and multiplied with the clear-sky irradiance. Longwave irradiance combines sky, clouds and surrounding slopes using the configured emissivities, the snow-free fraction of the domain and the surface temperature; emitted and reflected radiation use the configured snow emissivity and the albedo.",
    over=["inputs", "histories", "configurations"],
    quant="For every date/location/timezone, every sequence of data availability at the stations, every cloudiness method/fallback configuration and snow cover pattern.",
    why="Fallback chains and night handling depend on the availability history and on the previous step; existing tests only cover single formulas and sun angles for a few dates.",
    files=["openamundsen/modules/radiation/irradiance.py", "openamundsen/modules/radiation/clearsky.py", "openamundsen/modules/radiation/sunparams.py", "openamundsen/meteo/atmosphere.py", "openamundsen/surface.py"],
    mech=[("sun position", "sun_parameters"), ("clear-sky model", "clear_sky_shortwave_irradiance"), ("cloudiness and global irradiance", "shortwave_irradiance"), ("longwave irradiance", "longwave_irradiance"), ("outgoing radiation", "calc_radiation_balance")],
    state=[("cloud factor and fraction", "0-1 per pixel", "model.state.meteo.cloud_factor, cloud_fraction"), ("irradiance", "W m-2 per pixel", "model.state.meteo")],
    observe=["openamundsen.modules.radiation.sun_parameters()", "model.state.meteo after every run_single()"],
    technique="explicit-state exploration of the cloudiness state machine: the real model is driven along a walk containing every ordered pair of availability symbols in both day/night phases for every configuration, each step compared with a reference model; enumerated days x timezones x parameters for the clear-sky model",
    note="2 stations x 3-4 (thorough: up to 6) availability symbols each, 4 station geometries (inside, outside ROI, outside grid, extended grid), all method/night/fallback combinations; 16 snow patterns x 3 cloudiness values for longwave; two published variants of the forward scattering ratio accepted.",
)

P(
    id="C20",
    title="Grids, input rasters, region of interest and stations are located exactly",
    statement="Pixel coordinates, extent and center follow from the DEM header; the region of interest is exactly the set of pixels marked in the ROI raster (or all) that have a valid elevation, plus, if requested, the valid pixels containing a station, and all ROI index and coordinate arrays agree with it, with an extended region behaving like one given by a raster. Every station is assigned the pixel containing it and flagged as inside or outside of the grid and region, an extended grid is located exactly wherever it covers the model grid (also for fractional coordinates), and elevations and sky view factors are taken from it. Rasters whose dimensions, resolution or position do not match (and missing required ones) are rejected, missing values in rasters are replaced by the documented fill values, and written rasters read back with the same values and georeference.",
    over=["inputs", "configurations"],
    quant="For every grid shape, resolution and origin, every ROI mask and set of missing elevations, every position of stations and extended grids, and every kind of mismatch for every raster.",
    why="Off-by-one, orientation and edge mistakes show only for particular shapes and positions; the existing tests read two tiny rasters and check one DEM resolution mismatch.",
    files=["openamundsen/util.py", "openamundsen/model.py", "openamundsen/fileio/raster.py", "openamundsen/forcing.py"],
    mech=[("grid and ROI coordinates", "ModelGrid.prepare_coordinates, prepare_roi_coordinates"), ("raster reading and checks", "read_raster_file, OpenAmundsen._read_input_data, _read_extended_grids"), ("station location", "forcing.prepare_point_coordinates")],
    state=[("grid", "ROI mask and coordinates", "model.grid"), ("stations", "pixel and flags", "model.meteo"), ("rasters", "per pixel", "model.state")],
    observe=["model.grid", "model.meteo", "model.state after initialize()", "openamundsen.fileio raster functions"],
    technique="exhaustive enumeration of small grids, ROI masks, offsets, station positions and raster mismatches, each initializing the real model and compared with first-principles expectations",
    note="All shapes up to 4x4 x 9 georeferences, all ROI rasters over {0,1,5,nodata} for 3-4 pixels, all offsets of grids in extended grids up to 5x4 (every second in quick), 11 raster variants x 6 raster kinds, all ROI x station subsets for 3 pixels (half of them for 4 in quick).",
)

P(
    id="C19",
    title="Gaps in the forcing never outlive the gap",
    statement="If any subset of the forcing variables is missing for any pixel in one or several time steps, the snow water balance still closes in these steps, and no missing value enters anything that is kept from one step to the next: as soon as the forcing is complete again, every state variable and flux of every module is defined wherever it is defined without the gap. This holds for all snow models, melt methods, precipitation phase methods, land cover classes and snow conditions before and after the gap.",
    over=["inputs", "histories", "configurations"],
    quant="For every subset of missing forcing variables, gap length, weather before, during and after the gap, snow model and land cover class.",
    why="A value poisoned by a gap shows only for particular combinations of missing variable, module and following weather; the tests contain no gaps at all.",
    files=["openamundsen/model.py", "openamundsen/surface.py", "openamundsen/modules/snow/*.py", "openamundsen/modules/canopy/canopy.py", "openamundsen/modules/evapotranspiration/evapotranspiration.py", "openamundsen/modules/radiation/irradiance.py", "openamundsen/modules/soil/soil.py"],
    mech=[("handling of missing values", "every module called by OpenAmundsen.run_single()")],
    state=[("all state variables", "per pixel", "model.state")],
    observe=["every floating point variable in model.state after run_single()", "model.state.snow mass and fluxes"],
    technique="explicit-state exploration: all 63 subsets of missing variables x gap lengths 1-2 (all pairs for the open land configurations) x weather contexts, one pixel per history on the real model, each compared with its gap-free twin",
    note="6 snow model configurations x open land and 7 land cover classes x 3-hourly and daily steps, 4 weather contexts and 4 weathers within the gap; rolling buffers are judged through the variables derived from them.",
)

P(
    id="C21",
    title="Snow ageing: albedo, fresh snow density, compaction and depth follow the rules",
    statement="In every step the snow albedo decays exponentially towards its minimum with the timescale of cold or melting snow (by the configured air or surface temperature), is refreshed by snowfall abruptly or continuously as configured, starts at its maximum on bare ground and is undefined without snow; in the cryolayer model only exposed (or, with a single albedo, all) snow layers age, while exposed firn and ice have constant albedos. Snow depth changes exactly by settling (Anderson with the load of the overlying snow, or empirical relaxation towards the configured maximum densities, never decompacting), by fresh snow with the wet-bulb temperature dependent density, and by melt, sublimation and deposition in proportion to the layers' ice. Deprecated albedo methods behave like their documented replacements.",
    over=["inputs", "histories", "configurations"],
    quant="For every weather sequence (including data gaps), snow model, compaction method, albedo method, parameter set and time step.",
    why="The rules depend on the history of the snowpack and on several options; no existing test covers them.",
    files=["openamundsen/modules/snow/snow.py", "openamundsen/modules/snow/multilayermodel.py", "openamundsen/modules/snow/cryolayermodel.py", "openamundsen/conf.py"],
    mech=[("albedo", "snow.albedo, SnowModel.albedo_aging"), ("fresh snow density and compaction", "snow.fresh_snow_density, snow.compaction"), ("accumulation", "SnowModel.add_snow")],
    state=[("albedo", "per pixel and cryolayer", "model.state.snow.albedo, layer_albedo"), ("depth and densities", "per layer", "model.state.snow.thickness, depth, density")],
    observe=["model.state.snow before and after every run_single()"],
    technique="explicit-state exploration of all weather words over an 11-letter alphabet on the real (compiled) code, every transition compared with one step of a reference model started from the same state",
    note="8 configurations x 2 (thorough 3) time steps, all words of length 4 (5) from the bare and three snow-covered states, words of length 7 (8) over 4 letters; with several melting layers the depth is only bounded by the layer densities; cryolayer depth is compared exactly in C24.",
)

P(
    id="C24",
    title="Temperature index melt of the cryospheric layers equals the documented model",
    statement="With the (enhanced) temperature index methods, melt in a step is the degree day factor times the excess of air temperature over the threshold (plus albedo factor times absorbed shortwave radiation) times the step length, never negative, zero at or below the threshold and limited by the available ice. It is taken from the layers from top to bottom, melt water and rain percolate through the layers up to their liquid water capacity (none in firn and ice) and the rest runs off. Layer masses, densities, thicknesses and albedos, including the transitions new snow - old snow - firn - ice at the configured densities and month with mass-weighted merging, follow the documented rules exactly.",
    over=["inputs", "histories", "configurations"],
    quant="For every weather sequence (including data gaps), parameter set, time step and position of the run relative to the firn transition month.",
    why="The result depends on the layer history; mistakes in merging, percolation order or units per time step need particular sequences to show. No existing test runs the cryolayer model.",
    files=["openamundsen/modules/snow/cryolayermodel.py", "openamundsen/modules/snow/snow.py", "openamundsen/surface.py", "openamundsen/model.py"],
    mech=[("melt", "CryoLayerSnowModel.temperature_index, melt"), ("percolation and runoff", "CryoLayerSnowModel.runoff"), ("layer transitions", "CryoLayerSnowModel.update_layers, layer_transition")],
    state=[("cryospheric layers", "mass, density, thickness, albedo per layer", "model.state.snow")],
    observe=["model.state.snow before and after every run_single()"],
    technique="explicit-state exploration of all weather words over an 11-letter alphabet on the real code; every transition of the implementation is compared with one step of an independent executable model (simulation relation)",
    note="8 parameter sets x 3 time steps, all words of length 4 (thorough 5) from the bare and four snow-covered states, words of length 7 (8) over 4 letters starting before, at and after the firn transition.",
)

P(
    id="C22",
    title="Every multilayer snowpack step equals the documented layered model",
    statement="In every step with complete forcing, layer masses (ice, liquid), thicknesses, densities, temperatures, number of layers, runoff, melt, refreezing and sublimation of the multilayer snow model equal those of the documented model: settling, fresh snow, surface energy balance, implicit heat conduction to the soil, melt from top to bottom (warm layers first lose their excess heat), sublimation or deposition at the surface, percolation up to the holding capacity with refreezing down to the cold content, and re-slicing into layers of the prescribed thicknesses with proportional transfer of mass and energy. Surface layer, exchange and soil properties (heat capacity and conductivity with freezing soil moisture) follow their documented formulas for every configuration, including dry soil.",
    over=["inputs", "histories", "configurations"],
    quant="For every weather history, layer and soil configuration, time step and start state.",
    why="Heat transfer, percolation and layering interact over many steps; a mistake in one of them shows only for particular layerings, temperatures and wetness, and no existing test runs the snow model.",
    files=["openamundsen/modules/snow/multilayermodel.py", "openamundsen/modules/snow/snow.py", "openamundsen/surface.py", "openamundsen/heatconduction.py", "openamundsen/tridiag.py", "openamundsen/modules/soil"],
    mech=[("layer kernels", "multilayermodel._melt, _sublimation, _runoff, _heat_conduction, _update_layers"), ("surface energy balance", "surface.multilayer_energy_balance"), ("soil properties", "soil.soil_properties")],
    state=[("snow and soil layers", "mass, thickness, temperature per layer", "model.state.snow, model.state.soil")],
    observe=["model.state before and after every run_single()"],
    technique="explicit-state exploration of all weather words over an 11-letter alphabet on the real code; every transition of the implementation is compared with one step of an independent executable model (simulation relation)",
    note="8 configurations (1 to 5 layers, all compaction, albedo and liquid water options, partial snow cover, stability correction, frozen, moist and dry soil) x 3 time steps; all words of length 3 (thorough 5) from the bare and four snow-covered states, words of length 6 (8) over 4 letters.",
)
P(
    id="C25",
    title="Energy balance of the cryospheric layers equals the documented model",
    statement="With energy balance melt in the cryolayer model, at air temperatures of at least 0 degrees C the surplus at a melting surface first removes the cold content and then the ice of one layer after the other (energy left after a layer has vanished acts on the next), below it the deficit refreezes liquid water and builds up cold content of new and old snow up to its capacity, and the surface temperature is the root of the energy balance (secant), or the first of 0.25 K steps with a non-negative balance down to 3 K below air temperature (legacy), independent of other pixels. Fluxes belong to the resulting surface temperature, with the latent heat of sublimation and the configured surface heat flux, and sublimation or deposition, percolation, cold content and the layer transitions follow the documented rules exactly.",
    over=["inputs", "histories", "configurations"],
    quant="For every weather history, parameter set, time step, iteration method and position relative to the firn transition.",
    why="Melting through several layers, refreezing limits and iterations need particular histories; no existing test runs the cryolayer model.",
    files=["openamundsen/surface.py", "openamundsen/modules/snow/cryolayermodel.py", "openamundsen/modules/snow/snow.py"],
    mech=[("energy balance, cold content, iteration", "surface.cryo_layer_energy_balance, iterate_surface_temperature"), ("layers", "CryoLayerSnowModel")],
    state=[("cryospheric layers", "mass, density, thickness, cold content per layer", "model.state.snow")],
    observe=["model.state before and after every run_single()"],
    technique="explicit-state exploration of all weather words over an 11-letter alphabet on the real code; every transition of the implementation is compared with one step of an independent executable model (simulation relation)",
    note="5 configurations x 3 time steps, all words of length 3 (thorough 5) from the bare and five snow-covered states, words of length 6 (8) over 4 letters across the firn transition; surface temperature root by bisection, tolerance 0.02 K.",
)
P(
    id="C26",
    title="Every run starts from the configured initial state, reset keeps the storages",
    statement="After initialization, for every configuration and region of interest, there is no snow, no intercepted snow and no depletion of soil water, snow layers are empty, soil and surface have the configured initial temperature, soil layers the configured thicknesses and relative moisture, and the thermal and hydraulic soil parameters follow from the sand and clay fractions, at all pixels of the region of interest and only there. Elevation, land cover, soil texture and glacier fields contain exactly the input rasters. State variables are accessible under their category and name with the declared shape and type, and resetting the state clears exactly those which are not to be retained, never a storage the next time step depends on.",
    over=["configurations", "inputs", "histories"],
    quant="For every soil and snow configuration, set of submodules, region of interest and sequence of state variable operations.",
    why="Initial values are not observed by any existing test; a wrong parameter for particular soil fractions or a cleared storage shows only in combination with other options.",
    files=["openamundsen/modules/soil/init.py", "openamundsen/modules/snow/multilayermodel.py", "openamundsen/modules/snow/cryolayermodel.py", "openamundsen/statevars.py", "openamundsen/model.py"],
    mech=[("initial values", "initialize() of the submodules, OpenAmundsen.initialize"), ("state variable registry", "statevars.StateVariableManager")],
    state=[("all state variables", "2-D and 3-D arrays", "model.state")],
    observe=["model.state after initialize()", "model.state.reset(), model.state.meta()"],
    technique="exhaustive enumeration of soil configurations and ROI masks on the real initialization, and of all operation sequences up to a bound on the real state variable registry against a reference registry",
    note="10 sand/clay pairs x 3 layerings x 3 moistures x 2 temperatures for both snow models; all 63 masks (thorough 511) x 9 configurations; all 6561 (59049) operation sequences; sand and clay fractions with a positive sum.",
)
P(
    id="C27",
    title="Forcing datasets made or combined with the API reach the model unchanged",
    statement="Station datasets created from tables or datasets hold exactly the given values, dates, coordinates and metadata in the expected units (precipitation rates as sums over the time step, cloud fractions in percent), never modify or share the user's data, and missing metadata or unsuitable units are rejected. Combining stations gives the union of their dates and variables with every value at its own station and date and missing values elsewhere. The model accepts exactly the datasets covering its dates with all required variables, and its states and outputs are the same whether the same data come from memory (in any dimension or station order), CSV or NetCDF files, the API or the command line.",
    over=["inputs", "histories"],
    quant="For every set of variables, availability pattern of the stations, station order, way of providing the data and time steps.",
    why="Existing tests make one dataset; misplaced values, shared memory or a wrongly accepted dataset show only for particular subsets of variables, dates and stations.",
    files=["openamundsen/forcing.py", "openamundsen/model.py", "openamundsen/cli.py", "openamundsen/fileio/meteo.py"],
    mech=[("dataset creation", "forcing.make_point_dataset, combine_point_datasets"), ("acceptance", "is_valid_point_dataset, OpenAmundsen._initialize_meteo")],
    state=[("forcing", "station x time dataset", "model.meteo")],
    observe=["returned datasets", "model.meteo", "model.state after every step", "output files"],
    technique="exhaustive enumeration of variable subsets, availability patterns and dataset variants on the real forcing functions, the model acceptance and short model runs against a reference dataset",
    note="all 256 variable sets; all availability patterns of 1-2 (thorough 3) stations over 4 dates; 28 acceptance variants; 24 ways of providing the data x 3 variable sets over 4 time steps.",
)

P(
    id="C28",
    title="Output files depend on the run alone; failing writes are never silent",
    statement="Running the model in a results directory which already holds files of another run (complete or interrupted after any time step, with other dates, variables, points, time steps, regions of interest, layouts or write frequencies) or output files with truncated or damaged contents produces output files with the same content as in an empty directory. If an output cannot be written at the time it is due (file size limits reached at any length, results directory vanished, name taken by a directory), the time step raises an exception instead of going on without the data, CSV files hold a prefix of the complete output, and the run can be repeated in the same place with complete results.",
    over=["crash_points", "histories", "fault_sequences"],
    quant="For every earlier run and point of interruption, every truncation of existing files, and every file size or step at which writing fails.",
    why="Existing tests write into empty directories on a healthy disk; stale records and swallowed errors need a particular earlier history or fault at a particular write.",
    files=["openamundsen/fileio/pointoutput.py", "openamundsen/fileio/griddedoutput.py", "openamundsen/fileio/raster.py", "openamundsen/model.py"],
    mech=[("first write and appending", "PointOutputManager.update, GriddedOutputManager.update"), ("raster files", "fileio.write_raster_file")],
    state=[("output files", "CSV, NetCDF, ASCII and GeoTIFF files", "config.results_dir")],
    observe=["files in the results directory", "exceptions of run_single()"],
    technique="exhaustive enumeration of crash points of earlier runs, truncation lengths and write faults (file size limits, vanished directories) on the real output code, compared with the run in an empty directory",
    note="7 format combinations x 9 earlier runs x all interruption points x open/closed; 13 truncation lengths and 4 damaged contents per file; 25 size limits per file type; incomplete GeoTIFF writes are only logged by GDAL and not judged.",
)

P(
    id="C29",
    title="Every schedule of the parallel loops gives the same result",
    statement="The loops over pixels (or target points, or sun paths) which the compiled model distributes over several threads give the same result for every schedule of their iterations and every number of threads: an iteration never reads or writes data another iteration writes, except for writes which all set the same value. This holds for the snow, soil, shadow and interpolation kernels, for every snow model, weather history and terrain.",
    over=["schedules", "histories", "configurations", "inputs"],
    quant="For every interleaving of the iterations, weather history, model configuration, terrain and sun position.",
    why="Tests run one schedule on few pixels; a data race shows up only with several threads meeting on the same element, and rarely.",
    files=["openamundsen/modules/snow/multilayermodel.py", "openamundsen/modules/snow/snow.py", "openamundsen/modules/soil/soil.py", "openamundsen/modules/radiation/shadows.py", "openamundsen/interpolation.py"],
    mech=[("parallel loops over pixels", "numba prange loops of the snow and soil modules"), ("shadows and interpolation", "shadows(), _idw()")],
    state=[("shared arrays", "model state and work arrays used in the parallel loops", "model.state")],
    observe=["arrays written by the parallel loops"],
    technique="stateless model checking of the parallel loops of the real code under a controlled scheduler: dynamic detection of conflicting accesses, interleavings with up to two preemptions at them (partial-order reduction: iterations without conflict commute)",
    note="All prange loops, run as Python source with instrumented shared arrays, in word runs of all snow models and shadows/interpolation of small grids; memory-model effects below the level of array elements are not covered.",
)

P(
    id="C23",
    title="Derived meteorological variables are exact and mutually consistent",
    statement="For every temperature, humidity and elevation, saturation and actual vapor pressure, specific and absolute humidity, dew point, wet-bulb temperature, air pressure, air density, latent heat and psychrometric constant equal their documented formulas, and conversions back and forth (dew point, absolute humidity, altitude, wind components, cloud factor) return the original value. Wet-bulb temperature satisfies the psychrometer equation and lies between dew point and air temperature, and nothing is derived from missing values.",
    over=["inputs"],
    quant="For every air temperature, relative humidity, elevation, wind speed and direction and cloudiness.",
    why="The existing tests check single table values; errors on one side of the freezing point or for extreme humidity are not sampled.",
    files=["openamundsen/meteo/atmosphere.py", "openamundsen/model.py", "openamundsen/constants.py"],
    mech=[("formulas", "openamundsen.meteo"), ("wet-bulb iteration", "openamundsen.meteo wet_bulb_temperature")],
    state=[("derived variables", "2-D fields", "model.state.meteo")],
    observe=["model.state.meteo after run_single()", "public functions of openamundsen.meteo"],
    technique="exhaustive enumeration of a grid of temperatures, humidities and elevations through the real model against reference formulas",
    note="22 temperatures x 11 humidities x 6 elevations (thorough 90 x 36 x 12) through the model; wet-bulb tolerance 0.02 K; the solver values between grid points are not covered.",
)
P(
    id="C15",
    title="Evapotranspiration follows FAO-56 and closes the soil water balances",
    statement="In every time step and for every land cover class and soil texture, reference evapotranspiration follows the hourly FAO-56 Penman-Monteith equation, evaporation and transpiration follow the (dual) crop coefficient curve of the growing season (including cutting cycles, sparse vegetation and climate correction) and the water stress, and nothing evaporates below snow. Surface layer and root zone depletion change exactly by rain, evapotranspiration and percolation and stay within zero and the available water, water on sealed surfaces is balanced and bounded by its capacity, and evapotranspiration is never negative. Data gaps count as zero rain and zero evapotranspiration and never turn any storage into missing values.",
    over=["histories", "configurations", "inputs"],
    quant="For every weather history including gaps, land cover class, soil texture, growing season, parameter set and time step.",
    why="There is a single evapotranspiration test (needing downloaded data); the balances must hold after every step of every wetting/drying history.",
    files=["openamundsen/modules/evapotranspiration/evapotranspiration.py", "openamundsen/landcover.py", "openamundsen/data/land_cover_class_params.yml"],
    mech=[("reference and crop evapotranspiration", "EvapotranspirationModel.evapotranspiration"), ("water balances", "EvapotranspirationModel"), ("growing season curve", "crop_coefficient")],
    state=[("depletions and sealed interception", "kg m-2", "model.state.evapotranspiration")],
    observe=["model.state.evapotranspiration after run_single()", "model.state.land_cover.plant_height"],
    technique="explicit-state exploration of all weather words up to a bound on the real model, every transition compared with a reference FAO-56 water balance",
    note="All words over up to 7 letters (length 3-4 after drying prefixes) on 12 land cover classes x textures for 3 time steps with/without canopy, plus whole years of daily steps for all class x texture pairs, 5 parameter overrides x 3 parameter sets; incoming radiation is taken from the state.",
)
P(
    id="C16",
    title="The glacier geometry update redistributes ice and conserves the total mass",
    statement="At the end of every complete mass balance year, and only then, the ice of every glacier is redistributed over its sufficiently thick pixels according to the elevation-dependent delta-h function of its size class, with the loss limited to that of the terminus, while the total ice and firn mass of the glacier stays the same. Pixels outside of glaciers, with thin ice or of glaciers with fewer than two such pixels keep their mass, nothing becomes negative or missing (also for glaciers without elevation differences), and snow depth and water equivalent match the layers right after the update.",
    over=["histories", "configurations", "inputs"],
    quant="For every glacier geometry (elevations, thicknesses), mass balance pattern, start month of the mass balance year, start date and time step of the run.",
    why="No existing test covers the glacier model; the update happens once a year and its branches depend on combinations of elevation, thickness and loss.",
    files=["openamundsen/modules/glacier/glaciermodel.py", "openamundsen/modules/snow/cryolayermodel.py"],
    mech=[("geometry update", "GlacierModel._update_geometry"), ("delta-h function and limits", "_ice_mass_change, _mass_loss_surplus_distribution")],
    state=[("ice and firn mass", "kg m-2 per layer", "model.state.snow.ice_content"), ("glacier IDs", "per pixel", "model.state.glaciers.glacier")],
    observe=["model.state.snow after every run_single()"],
    technique="exhaustive enumeration of small glacier geometries and loss patterns run through whole mass balance years of the real model, compared with a reference delta-h redistribution",
    note="All multisets of 1-3 pixels (every second part of the triples in quick) over 3 elevations x 4 thicknesses x 3 losses, reduced alphabets for 4 pixels, structured glaciers of 11-21 pixels, three size classes, all 12 start months, 3 time steps; twin runs with snow/firn seasons.",
)
