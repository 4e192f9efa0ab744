W = "Unit tests try a handful of small arrays; the claim is over every array shape and every combination of the flags/values in every cell."

prop("C01", "Category and quality bit fields encode and decode losslessly",
     "In the categorize file bit n of a category/quality value is set exactly where the documented n-th field is true for that cell and no undocumented bit is set. Reading the bit field back returns, for each of the 6 category and 10 quality fields, exactly the boolean field that was stored; testing and setting single bits affects only that bit.",
     ["cloudnetpy/categorize/categorize.py", "cloudnetpy/products/product_tools.py", "cloudnetpy/utils.py"],
     [("encoding", "categorize.py:_classes_to_bits"), ("decoding", "product_tools.py:CategorizeBits"), ("bit helpers", "utils.py:isbit, setbit")],
     "all boolean field combinations in all cells of all grids", W)
prop("C02", "Target classification follows the documented bit table in every cell",
     "For every cell the target class is determined only by that cell's category bits and clutter flag: clutter without aerosol is clear sky; otherwise aerosol and insects, insects, aerosol, melting with/without droplets, ice with/without supercooled droplets, drizzle/rain with/without droplets, and droplets, in that order of precedence (insects only where there is no clutter). No cell is masked and the classes are the documented codes 0-10.",
     ["cloudnetpy/products/classification.py"],
     [("classification", "classification.py:_get_target_classification")],
     "all 2^7 bit combinations in all cells of all grids", W)
prop("C03", "Detection status and signal source follow the quality bits",
     "For every cell the detection status is the documented function of that cell's radar, lidar, clutter, molecular, attenuation and correction flags, where attenuation counts as corrected only if every attenuation type present is corrected. The signal source status is 1 for radar and lidar, 2 for radar only, 3 for lidar only and 0 otherwise.",
     ["cloudnetpy/products/classification.py"],
     [("detection status", "classification.py:_get_detection_status"), ("signal source", "classification.py:_get_signal_source_status")],
     "all 2^10 bit combinations in all cells of all grids", W)
prop("C04", "Radar attenuation status follows the attenuation and layers below",
     "A cell with a radar echo is reported as uncorrected when its attenuation is not fully corrected, else severe (total attenuation above 15 dB, or at W-band LWP above 1 kg m-2 or rain above 3 mm/h in that profile), moderate (at least 10 dB), small (above 0) or negligible; missing attenuation, LWP and rain count as zero. Every cell that is not itself severe but lies above a severe cell of its profile is reported as undetected, and all other cells without radar echo are clear.",
     ["cloudnetpy/products/classification.py", "cloudnetpy/utils.py"],
     [("status", "classification.py:_get_radar_attenuation_status"), ("attenuation classes", "classification.py:_get_attenuation_classes"), ("forward fill", "utils.py:ffill")],
     "all attenuation fields (masked or not), radar frequencies, rain and LWP series and bit combinations", W)
prop("C05", "Cloud base and top heights bound exactly the reported cloud gates",
     "For every profile the cloud base and top heights are the lowest and highest gate belonging to a cloud object (droplets or ice, edge-connected in time and height) of more than 20 cells, and they are missing exactly in profiles without such gates. Cloud bases and tops of single layers are the cells whose lower (upper) neighbour is not cloud. The top height status follows the radar attenuation status at the cloud top gate.",
     ["cloudnetpy/products/classification.py", "cloudnetpy/categorize/atmos_utils.py", "cloudnetpy/utils.py"],
     [("base and top", "classification.py:_get_cloud_base_and_top_heights"), ("top status", "classification.py:_get_cloud_top_height_status"), ("layer edges", "atmos_utils.py:find_cloud_bases, find_cloud_tops")],
     "all classification fields and height axes", W, note="Small-object removal is library labelling (scipy): assumed to keep a subset of its input in the proof, checked exactly by a bounded search.")
prop("C06", "Ice water content and effective radius are given exactly where retrievable",
     "Ice water content and ice effective radius are present exactly in ice cells (falling, freezing, not melting, not insects) that have radar data and no uncorrected attenuation, and equal the documented reflectivity-temperature power law for the radar band. The retrieval status follows the documented table (retrieved, uncorrected, corrected, no radar, rain below, would be ice) and the error is reported in the same cells.",
     ["cloudnetpy/products/iwc.py", "cloudnetpy/products/ier.py", "cloudnetpy/products/product_tools.py"],
     [("values", "product_tools.py:IceSource.append_icy_data"), ("status", "product_tools.py:IceSource.append_status"), ("ice masks", "product_tools.py:IceClassification"), ("error", "iwc.py:append_error; ier.py:append_ier_error")],
     "all reflectivity/temperature fields, masks, bit combinations, rain flags and both radar bands", W)
prop("C07", "Adiabatic liquid water profiles integrate to the measured path",
     "Within each liquid layer the adiabatic liquid water content rises from layer base with the gradient at that base and is zero outside liquid layers. The retrieved profile is that shape times one factor per profile, so that its vertical integral equals the measured liquid water path; profiles with rain, missing path or no liquid are masked. Running sums restart and fills propagate exactly at zeros.",
     ["cloudnetpy/products/lwc.py", "cloudnetpy/categorize/atmos_utils.py", "cloudnetpy/utils.py"],
     [("profile", "lwc.py:Lwc"), ("layer gradient", "atmos_utils.py:fill_clouds_with_lwc_dz"), ("adiabatic content", "atmos_utils.py:calc_adiabatic_lwc"), ("scaling", "atmos_utils.py:normalize_lwc_by_lwp"), ("helpers", "utils.py:cumsumr, ffill")],
     "all liquid masks, temperature/pressure fields, height axes, path series", W, note="The adiabatic gradient itself (external package atmoslib) is an unspecified positive function of base temperature and pressure; floats are reals.")

prop("C08", "Liquid water retrieval status and error follow the documented table",
     "Liquid cells have status 1; in rain-free profiles whose topmost liquid layer is seen by lidar only and whose adiabatic path is smaller than the measured one all liquid cells become 2 and empty cells above that layer's base become 3, upward without gaps along a linear profile until the path is reached or the profile is full; profiles with rain or missing path are 4 and everything else is 0. The error is present exactly where water is retrieved and combines the limited relative gradient of the water content with the limited relative path error.",
     ["cloudnetpy/products/lwc.py"],
     [("layers", "lwc.py:CloudAdjustor._find_topmost_clouds, _find_lidar_only_clouds, _find_adjustable_clouds"), ("extension", "lwc.py:CloudAdjustor._adjust_lwc"), ("status", "lwc.py:CloudAdjustor"), ("error", "lwc.py:LwcError")],
     "all liquid masks, echo flags, adiabatic profiles, path series, rain flags and height axes", W, note="The composition over profiles (status table as a whole) is checked by a bounded search against an independent oracle; layer selection, single-profile extension and error are proved. A layer that starts at the lowest gate has no layer base in the code's sense and is only adjusted above itself when a higher layer exists.")

prop("C09", "Droplet effective radius is given exactly in liquid cells with radar data",
     "The droplet effective radius is present exactly in droplet cells with radar data and equals the documented reflectivity power law; the variant scaled by the liquid water path integrates the root of reflectivity over the gates of the cell's own layer and is present only where additionally the path is positive, with errors in the same cells. The status is 3 for retrievals in rain, 2 where ice and droplets mix, 1 for other retrievals, 4 for ice without droplets and 0 otherwise.",
     ["cloudnetpy/products/der.py"],
     [("values", "der.py:DerSource.append_der"), ("status", "der.py:DerSource.append_retrieval_status"), ("droplet masks", "der.py:DropletClassification")],
     "all droplet masks, reflectivity fields, path series, rain flags and heights", W, note="Masks and status are proved; the radius profiles are decided by a bounded search (stated number of inputs) against an independent oracle, because their layer loop over ragged index lists is outside the engine.")
prop("C10", "Drizzle is retrieved exactly in the documented cells, with consistent parameters",
     "Drizzle cells are falling, neither droplets, freezing, melting nor insects, seen by radar and lidar, free of clutter, molecular scattering, liquid and rain attenuation, with a valid velocity variance and outside rainy profiles; the retrieval status is 5 in rainy profiles, 3 for drizzle inside warm liquid, 2 and 1 for drizzle in profiles with and without a melting layer, 4 for other warm liquid and 0 otherwise. Diameter, shape and lidar ratio are non-zero only there, come from one look-up table entry and reproduce the backscatter-to-reflectivity ratio corrected for the extinction of the drizzle gates below; number, water content, flux and velocities follow from them by the documented formulas. In the product a drizzle variable is missing exactly where it is zero or the profile is rainy.",
     ["cloudnetpy/products/drizzle_tools.py", "cloudnetpy/products/drizzle.py"],
     [("drizzle cells", "drizzle_tools.py:DrizzleClassification"), ("status", "drizzle.py:RetrievalStatus"), ("iterative solution", "drizzle_tools.py:DrizzleSolver"), ("derived products", "drizzle.py:DrizzleProducts"), ("screening", "drizzle.py:_screen_rain, _append_data")],
     "all bit combinations, variance fields with gaps, rain flags, look-up tables, radar and lidar fields", W, note="Cells, status, derived products and screening are proved; the iterative solution is decided by a bounded search against an independent oracle. Gamma function uninterpreted, floats are reals; at least two profiles.")
prop("C11", "Drizzle errors combine reflectivity and backscatter errors by drop size",
     "In drizzle cells the error (in dB) of diameter, water content, water flux and lidar ratio is the documented weighted norm of the linearised reflectivity and lidar backscatter errors, with its own weights for small drops (above 10 and up to 100 micrometres) and, for the flux, tiny drops (up to 10 micrometres); outside drizzle it is zero or missing. Computing one error leaves the others unchanged, and biases are the same norm of the instrument biases.",
     ["cloudnetpy/products/drizzle_error.py", "cloudnetpy/utils.py"],
     [("errors", "drizzle_error.py:get_drizzle_error"), ("norms", "utils.py:l2norm, l2norm_weighted")],
     "all diameter fields, scalar or gridded reflectivity errors with gaps, all bias values", W)
prop("C12", "Site coordinates come from the most trusted source and stay consistent",
     "Latitude and longitude are taken from GPS data if there is any non-zero valid value, else from the user's site information, else from the raw file's variables and else from its global attributes with their sign; altitude the same way without GPS. Longitudes above 180 degrees are wrapped by 360. A site that moves at most about 1 km is stored as the mean of its valid coordinates, otherwise as time series with the invalid values missing; altitude is averaged if it varies less than 100 m.",
     ["cloudnetpy/utils.py"], [("coordinates", "utils.py:add_site_geolocation"), ("stationarity", "utils.py:_are_stationary"), ("attributes", "utils.py:_parse_global_attribute_numeral")],
     "all coordinate series with gaps and zeros, all combinations of sources", W, note="Netcdf files are replaced by in-memory stand-ins; cosine is uninterpreted except for its range and sign; coordinates in text attributes are checked by a bounded search.")
prop("C13", "Rain amounts and surface variables follow the station's measurements",
     "A cumulative rain amount starts at zero at the first available measurement and grows between consecutive available values by the counter's increment, or by the counter value itself after a reset, for any number of resets and gaps; where only a rate exists the amount is its running sum over the sampling interval. Missing values stay missing, wind directions less than 2 degrees outside 0-360 wrap around and others are kept, and temperature, humidity, pressure and rain rate are converted to SI units.",
     ["cloudnetpy/instruments/cloudnet_instrument.py", "cloudnetpy/instruments/weather_station.py"],
     [("amount", "cloudnet_instrument.py:CSVFile.normalize_cumulative_amount"), ("rate sum", "weather_station.py:WS.calculate_rainfall_amount"), ("wind", "weather_station.py:WS.wrap_wind_direction")],
     "all series lengths, values and gaps", W, note="The median sampling interval is only assumed to lie between two of the intervals; floats are reals.")
prop("C14", "Time screening keeps exactly the expected day, as whole aligned rows",
     "Selecting the profiles of the expected date keeps exactly the valid time stamps of that date, strictly increasing and without duplicates, and applies the same selection to every array that has the time dimension, so that each kept row is one whole row of the input; other arrays and scalars are untouched. If no time stamp is valid an error is raised. Sorting, removal of duplicates and selection by flag keep whole rows, lose no time stamp and invent none.",
     ["cloudnetpy/utils.py", "cloudnetpy/instruments/cloudnet_instrument.py", "cloudnetpy/instruments/mira.py", "cloudnetpy/instruments/mrr.py"],
     [("valid indices", "utils.py:find_valid_time_indices, screen_by_time"), ("sorting", "cloudnet_instrument.py:CloudnetInstrument.sort_timestamps"), ("duplicates", "cloudnet_instrument.py:CloudnetInstrument.remove_duplicate_timestamps"), ("flags", "cloudnet_instrument.py:CloudnetInstrument.screen_time_indices"), ("dates", "mira.py:Mira.screen_by_date; mrr.py:MrrPro.screen_by_date")],
     "all time series (any order, repeats, other days), all row contents with gaps, any expected date", W, note="Arrays of a different dimension are assumed to have a length different from the time dimension, as the code identifies the dimension by its length; calendar arithmetic of datetime is replaced by exact day counting.")
prop("C15", "Averaging radar data to the product grid uses exactly the samples of each bin",
     "Every cell of the averaged radar fields is computed from exactly the valid samples between the edges of its time bin and is missing when there are none: reflectivity and depolarisation as the mean in linear units, spectral width and rain rate as the mean, velocity as the circular mean on the bin's largest folding velocity, and velocity variability as the standard deviation with zeros missing. The profiles without any sample are reported exactly, and the averaging works whether the folding velocity is given directly or by the pulse repetition frequency.",
     ["cloudnetpy/utils.py", "cloudnetpy/categorize/radar.py", "cloudnetpy/cloudnetarray.py"],
     [("binning", "utils.py:rebin_2d, rebin_1d, binvec"), ("fields", "radar.py:Radar.rebin_to_grid"), ("velocity", "radar.py:Radar._rebin_velocity"), ("units", "utils.py:db2lin, lin2db; cloudnetarray.py:CloudnetArray.rebin_data")],
     "all sample times, fields with gaps, evenly spaced grids, scalar, gridded or derived folding velocities", W, note="The standard deviation is checked by a bounded search (its use in the radar averaging is proved on top of that); the time series is in increasing order; sine, cosine and arctangent are uninterpreted; floats are reals.")
prop("C16", "Attenuation corrections follow the path and reach the echo and the quality flags",
     "Each two-way attenuation is twice the specific attenuation summed along the path from the ground: gas everywhere (saturated inside liquid), rain over the warm part of rainy profiles and kept above it, melting layer by the documented power law in the frozen cells of rainy profiles, and liquid from a layer profile that integrates to the water path, in and above liquid of rain-free profiles. An attenuated cell is uncorrected exactly where its amount is unknown because rain rate or water path is missing. Reflectivity is corrected by the sum of all known amounts, and the quality flags state presence of radar and lidar, clutter, attenuation and correction accordingly.",
     ["cloudnetpy/categorize/attenuation.py", "cloudnetpy/categorize/attenuations/gas_attenuation.py", "cloudnetpy/categorize/attenuations/liquid_attenuation.py", "cloudnetpy/categorize/attenuations/rain_attenuation.py", "cloudnetpy/categorize/attenuations/melting_attenuation.py", "cloudnetpy/categorize/radar.py", "cloudnetpy/categorize/classify.py"],
     [("path sum", "attenuations/__init__.py:calc_two_way_attenuation"), ("amounts", "attenuations/*_attenuation.py"), ("combination", "attenuation.py:get_attenuations"), ("correction", "radar.py:Radar.correct_atten"), ("quality flags", "classify.py:fetch_quality")],
     "all heights, model fields with gaps, rain rates and water paths with gaps, classifications, both radar bands", W, note="The specific attenuation of rain (external package atmoslib) is an unspecified function of rain rate and frequency that is positive for rain and zero without; floats are reals; at least two profiles.")
prop("C17", "Target classification rules of the categorize file decide each cell consistently",
     "Falling echo is radar echo that is neither clutter nor insects, aerosol is lidar signal that is neither falling nor droplets, droplets below -38 C become ice, and insects are removed in rain, in liquid, in and above the melting layer. Radar droplets below a base of lidar droplets are dropped, echo in droplet layers that increases with height with no echo above is not falling, cold lidar signal is ice above 2 km but between 2 and 4 km only if isolated, and a melting layer is added at a transition from drizzle to ice unless the profile is dry. Corrections near the melting layer, of isolated echo, of clutter touching cloud and of warm ice with high depolarisation only move cells between those classes and change no others.",
     ["cloudnetpy/categorize/classify.py", "cloudnetpy/categorize/containers.py", "cloudnetpy/categorize/falling.py", "cloudnetpy/categorize/droplet.py", "cloudnetpy/categorize/insects.py"],
     [("rain and clutter", "containers.py:_find_clutter, ClassData._find_profiles_with_rain"), ("falling", "falling.py:_find_falling_from_radar, _fix_liquid_dominated_radar, _find_cold_aerosols"), ("droplets", "droplet.py:correct_liquid_top; classify.py:_remove_false_radar_liquid, _fix_super_cold_liquid"), ("insects", "insects.py:_screen_insects; classify.py:_filter_insects"), ("corrections", "classify.py:_filter_falling, _remove_clutter_in_liquid, _reclassify_ice_with_high_ldr, _fix_undetected_melting_layer")],
     "all time-height fields with gaps and all combinations of the class flags", W, note="Labelling of connected regions (scikit-image) is a trusted contract; freezing and melting detection and the droplet search in the lidar profile are not covered.")
prop("C18", "Interpolation to the product grid uses the nearest data and never bridges gaps",
     "Microwave radiometer and disdrometer series are interpolated linearly (weather codes: nearest) between adjacent valid samples, keep the first and last value beyond the data, and are missing exactly where no valid sample lies within the allowed time. Lidar backscatter takes value and mask from the nearest gate of the nearest profile that has any signal, is missing outside the data, more than one minute from such a profile and more than 100 m from a gate, and the affected profiles are reported; a day without any signal gives an all-missing field. Fields on another range grid take the nearest gate and are missing outside the original range.",
     ["cloudnetpy/utils.py", "cloudnetpy/categorize/mwr.py", "cloudnetpy/categorize/disdrometer.py", "cloudnetpy/categorize/lidar.py"],
     [("series", "utils.py:interpolate_1d, get_gap_ind"), ("radiometer and disdrometer", "mwr.py:Mwr.interpolate_to_grid; disdrometer.py:Disdrometer.interpolate_to_grid"), ("lidar", "lidar.py:Lidar.interpolate_to_grid; utils.py:interpolate_2d_nearest"), ("range", "utils.py:interpolate_2D_along_y")],
     "all sample times (repeats included), gaps, grids and data values", W, note="scipy's interp1d and RegularGridInterpolator are trusted contracts whose preconditions are proved; floats are reals.")
