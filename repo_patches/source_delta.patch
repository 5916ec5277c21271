From 6a71d43e840b99b23f43aa9f28095e0962672620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:25 +0000
Subject: [PATCH 01/44] fix: multilayer snowpack becoming NaN when a fully
 melted layer is redistributed

A melted layer of zero thickness led to 0/0 when the remaining snow depth was below
the minimum layer thickness, permanently setting SWE to NaN for the pixel.
---
 openamundsen/modules/snow/multilayermodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index 9d04ccf..96c864e 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -612,6 +612,9 @@ def _update_layers(
 
             # TODO optimize this loop
             for k_old in range(num_layers_prev[i, j]):
+                if thickness_prev[k_old, i, j] <= 0:  # nothing to redistribute (melted layer)
+                    continue
+
                 while True:  # TODO replace with normal loop
                     weight = min(new_thickness / thickness_prev[k_old, i, j], 1.0)
 
-- 
2.43.0


From 840b83de57d5fdd8fb648374e9a651025d73fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:33 +0000
Subject: [PATCH 02/44] fix: use the soil temperature as lower boundary for
 snow heat conduction

The temperature of the last (possibly empty) snow layer was taken as the temperature
below the snowpack, so the heat exchanged at the snow base did not match the heat
flux passed on to the soil.
---
 openamundsen/modules/snow/multilayermodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index 96c864e..38bc3a3 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -84,6 +84,7 @@ class MultilayerSnowModel(SnowModel):
             s.soil.thickness,
             model.timestep,
             s.snow.temp,
+            s.soil.temp,
             s.snow.therm_cond,
             s.soil.therm_cond,
             s.surface.heat_flux,
@@ -447,6 +448,7 @@ def _heat_conduction(
     soil_thickness,
     timestep,
     temp,
+    soil_temp,
     therm_cond_snow,
     therm_cond_soil,
     heat_flux,
@@ -476,6 +478,9 @@ def _heat_conduction(
     temp : ndarray(float, ndim=3)
         Snow temperature (K).
 
+    soil_temp : ndarray(float, ndim=3)
+        Soil temperature (K).
+
     therm_cond_snow : ndarray(float, ndim=3)
         Snow thermal conductivity (W m-1 K-1).
 
@@ -506,7 +511,7 @@ def _heat_conduction(
                 timestep,
                 temp[:ns, i, j],
                 therm_cond_snow[:ns, i, j],
-                temp[-1, i, j],
+                soil_temp[0, i, j],
                 soil_thickness[0, i, j],
                 therm_cond_soil[0, i, j],
                 heat_flux[i, j],
-- 
2.43.0


From 280a9f7e17dc6fb960421f72fa23cefd95f2e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:31 +0000
Subject: [PATCH 03/44] fix: sign of the sensible heat flux update in the
 multilayer energy balance

The sensible heat flux is oriented towards the surface, i.e., it decreases when the
surface temperature increases. Adding the change yielded fluxes of several thousand
W m-2 which did not match the reported surface temperature.
---
 openamundsen/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 952212e..9499c6c 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -196,7 +196,7 @@ def multilayer_energy_balance(model):
     s.surface.temp[roi] += surf_temp_change
     s.surface.moisture_flux[roi] += surf_moisture_flux_change
     s.surface.heat_flux[roi] += surf_heat_flux_change
-    s.surface.sens_heat_flux[roi] += sens_heat_flux_change
+    s.surface.sens_heat_flux[roi] -= sens_heat_flux_change  # flux is oriented towards the surface
     calc_radiation_balance(model, roi)
     calc_latent_heat(model, roi)
     calc_turbulent_fluxes(model, roi, sensible=False)
-- 
2.43.0


From 0221602a69e85c87b374c8a6088f6845513540f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:05 +0000
Subject: [PATCH 04/44] fix: conversion of ROI pixel outputs without any
 written time step

---
 openamundsen/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/util.py b/openamundsen/util.py
index 0a40726..b486fa3 100644
--- a/openamundsen/util.py
+++ b/openamundsen/util.py
@@ -158,7 +158,7 @@ def convert_roi_pixel_dataset_to_grid(ds: xr.Dataset) -> xr.Dataset:
         values = np.moveaxis(da.values, pixel_axis, -1)
         fill_value = da.encoding.get("_FillValue", da.attrs.get("_FillValue", np.nan))
         full_values = np.full((*values.shape[:-1], nrows, ncols), fill_value, dtype=da.dtype)
-        full_values.reshape(*values.shape[:-1], -1)[..., pixel_idxs] = values
+        full_values.reshape(*values.shape[:-1], nrows * ncols)[..., pixel_idxs] = values
 
         target_order = (
             *range(pixel_axis),
-- 
2.43.0


From 1893e03a6527045289bb869f62d0a0f90d3413ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:05 +0000
Subject: [PATCH 05/44] fix: end-anchored instantaneous grid outputs for runs
 not starting at midnight

The write dates were placed in the following interval (or dropped at the end of the run)
if the time of day of the start date is later than the first time step of the day.
---
 openamundsen/fileio/griddedoutput.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openamundsen/fileio/griddedoutput.py b/openamundsen/fileio/griddedoutput.py
index 532fe45..7fdb8a4 100644
--- a/openamundsen/fileio/griddedoutput.py
+++ b/openamundsen/fileio/griddedoutput.py
@@ -753,7 +753,15 @@ def _freq_write_dates(dates, out_freq, agg):
                 pd.tseries.offsets.MonthEnd,
             )
         ) and model_freq_td < pd.Timedelta(days=1):
-            write_dates += pd.Timedelta(days=1) - model_freq_td
+            # Take the last time step of the last day of the intervals (the time of day of the
+            # model dates depends on the start date, and might be after midnight)
+            last_days = pd.date_range(
+                start=dates[0].normalize(),
+                end=dates[-1].normalize(),
+                freq=out_offset,
+            )
+            time_of_day = (dates[0] - dates[0].normalize()) % model_freq_td
+            write_dates = last_days + (pd.Timedelta(days=1) - model_freq_td + time_of_day)
 
     return write_dates
 
-- 
2.43.0


From 916b9366561a545e9860af39d94c15dc6e0d453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:46 +0000
Subject: [PATCH 06/44] fix: aggregation intervals of monthly/yearly grid
 outputs for daily runs not starting at midnight

The last day of the month was assigned to the following interval.
---
 openamundsen/fileio/griddedoutput.py | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/openamundsen/fileio/griddedoutput.py b/openamundsen/fileio/griddedoutput.py
index 7fdb8a4..2194c9a 100644
--- a/openamundsen/fileio/griddedoutput.py
+++ b/openamundsen/fileio/griddedoutput.py
@@ -713,26 +713,11 @@ def _freq_write_dates(dates, out_freq, agg):
                     "not supported for timesteps > 1d"
                 )
 
-            period_end_dates = (
-                pd.period_range(
-                    start=dates[0],
-                    end=dates[-1],
-                    freq=out_offset,
-                )
-                .asfreq(model_freq, how="end")
-                .to_timestamp()
-            )
-
-            d0 = dates[dates <= period_end_dates[0]][-1]
-            write_dates = period_end_dates + (d0 - period_end_dates[0])
-
-            if period_end_dates[0] - write_dates[0] > pd.Timedelta("24h"):
-                write_dates = write_dates.delete(0)
-
-            # Keep the last output interval only if it is fully covered (e.g., do not write half
-            # months)
-            if len(write_dates) > 0 and write_dates[-1] > dates[-1]:
-                write_dates = write_dates.delete(-1)
+            # Write at the last time step of each interval. The last output interval is kept only if
+            # it is fully covered (e.g., do not write half months).
+            periods = dates.to_period(out_offset)
+            next_periods = (dates + model_freq_td).to_period(out_offset)
+            write_dates = dates[periods != next_periods]
         else:
             write_dates = pd.date_range(
                 start=dates[0] + out_freq_td - model_freq_td,
-- 
2.43.0


From d0a54ca83239d013b293b2311f4b00188fc8a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:20 +0000
Subject: [PATCH 07/44] fix: first write of point outputs if the write dates
 are not model dates

---
 openamundsen/fileio/pointoutput.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openamundsen/fileio/pointoutput.py b/openamundsen/fileio/pointoutput.py
index fcd44ca..b60b4fe 100644
--- a/openamundsen/fileio/pointoutput.py
+++ b/openamundsen/fileio/pointoutput.py
@@ -406,10 +406,14 @@ class PointOutputManager:
         if self.format != "memory" and date == ds.indexes["time"][-1]:
             logger.debug("Writing point outputs")
 
+            # The write dates do not necessarily coincide with model dates, hence check if the
+            # current chunk is the first one instead of comparing with the first write date
+            is_first_write = ds.indexes["time"][0] == self.model.dates[0]
+
             if self.format == "netcdf":
                 filename = self.model.config.results_dir / "output_timeseries.nc"
 
-                if date == self.write_dates[0]:
+                if is_first_write:
                     ds.to_netcdf(filename, engine=constants.NETCDF_ENGINE)
                 else:
                     with xr.open_dataset(filename) as old_ds:
@@ -448,7 +452,7 @@ class PointOutputManager:
 
                     df = ds_out_point.to_dataframe()
 
-                    if date == self.write_dates[0]:
+                    if is_first_write:
                         df.to_csv(filename)
                     else:
                         df.to_csv(filename, mode="a", header=False)
-- 
2.43.0


From e2350140a19340f805f1dc6c5af0712b67c91459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:35 +0000
Subject: [PATCH 08/44] fix: restore the numba thread count if a time step
 fails or is rejected

---
 openamundsen/model.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 1fe1f64..3d7000e 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -252,6 +252,16 @@ class OpenAmundsen:
             prev_num_threads = numba.get_num_threads()
             numba.set_num_threads(self._numba_threads)
 
+        try:
+            self._process_next_time_step()
+        finally:
+            if self._numba_threads is not None:
+                numba.set_num_threads(prev_num_threads)
+
+    def _process_next_time_step(self):
+        """
+        Increment the date counter and process the corresponding time step.
+        """
         if self.date_idx is None:
             self.date_idx = 0
         elif self.date_idx == len(self.dates) - 1:
@@ -281,9 +291,6 @@ class OpenAmundsen:
             logger.debug("Updating live view window")
             self.liveview.update(self.date)
 
-        if self._numba_threads is not None:
-            numba.set_num_threads(prev_num_threads)
-
     def global_mask(self, mask, global_mask=None, global_idxs=None):
         if global_idxs is None:
             if global_mask is None:
-- 
2.43.0


From 8b0bbc2ad09a397f0c5c76a7d56bd7cbb73de9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:50 +0000
Subject: [PATCH 09/44] fix: canopy model crashing if the air temperature is
 missing for some forest pixels

---
 openamundsen/modules/canopy/canopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index 49fd295..fd74e93 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -91,7 +91,7 @@ class CanopyModel:
         pos_finite_temp = pos & np.isfinite(mean_24h_temp)
         delta_t = ((mean_24h_temp[pos_finite_temp] - c.T0) / 3).clip(-2, 2)  # eq. (5)
         s.meteo.temp[pos_finite_temp] -= (  # eq. (4)
-            canopy_frac
+            canopy_frac[pos_finite_temp[pos]]
             * (
                 s.meteo.temp[pos_finite_temp]
                 - (
-- 
2.43.0


From 9ca630ab013a10b66329dc070fb1b937a50f0cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:50 +0000
Subject: [PATCH 10/44] fix: retain glacier IDs when resetting the state
 variables

---
 openamundsen/modules/glacier/glaciermodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e83ffe5..e274eae 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -28,7 +28,7 @@ class GlacierModel:
         self.model = model
         s = model.state
         sg = s.add_category("glaciers")
-        sg.add_variable("glacier", long_name="Glacier ID", dtype=int)
+        sg.add_variable("glacier", long_name="Glacier ID", dtype=int, retain=True)
         self.mass_balance_start_we = None
 
     def initialize(self):
-- 
2.43.0


From 9001485bb2003767006c7b44db0a92e1f4c6adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:50 +0000
Subject: [PATCH 11/44] fix: WMO precipitation correction for gauges other than
 hellmann

---
 openamundsen/meteo/precipcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/precipcorr.py b/openamundsen/meteo/precipcorr.py
index 7a83ff5..1c2a738 100644
--- a/openamundsen/meteo/precipcorr.py
+++ b/openamundsen/meteo/precipcorr.py
@@ -180,7 +180,7 @@ def correct_station_precipitation(model):
             elif gauge == "us_unsh":
                 cr[pos_snow] = np.exp(4.61 - 0.16 * wind_speeds_2m[pos_snow] ** 1.28)
                 cr[pos_mixed] = 100.77 - 8.34 * wind_speeds_2m[pos_mixed]
-            if gauge == "hellmann":
+            elif gauge == "hellmann":
                 cr[pos_snow] = (
                     100 + 1.13 * wind_speeds_2m[pos_snow] ** 2 - 19.45 * wind_speeds_2m[pos_snow]
                 )
-- 
2.43.0


From 0b79408f156d7c5c5f3faa1441a3e2d927aeb26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:47 +0000
Subject: [PATCH 12/44] fix: elevation trend if all stations are located at the
 same elevation

With the regression method, np.polyfit() returns a meaningless trend for
stations with identical elevations (or fails for an elevation of 0 m).
---
 openamundsen/meteo/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 6cc252e..2a765d1 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -70,7 +70,8 @@ def _linear_fit(x, y):
     -------
     slope, intercept : float
     """
-    if len(x) < 2:
+    if len(np.unique(x)) < 2:
+        # The trend is undefined for a single point or if all points have the same x coordinate
         slope = 0
         intercept = 0
     else:
-- 
2.43.0


From 32bf67e3bd06d16e95a938984eadcecf8184d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:47 +0000
Subject: [PATCH 13/44] fix: humidity interpolation without extrapolation

The interpolated relative humidities were clipped to the range of the station
dew point temperatures (i.e., effectively always set to 100%).
---
 openamundsen/meteo/interpolation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 2a765d1..8ecc1f9 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -519,8 +519,9 @@ def interpolate_param(
     # Restrict interpolated values to the range of the point values if extrapolation is disabled in
     # the parameter config
     if not param_config["extrapolate"] and len(data) > 0:
-        min_range = np.nanmin(data)
-        max_range = np.nanmax(data)
+        point_values = rel_hums if param == "rel_hum" else data
+        min_range = np.nanmin(point_values)
+        max_range = np.nanmax(point_values)
 
         if np.isfinite(min_range):
             data_interpol = np.clip(data_interpol, min_range, max_range)
-- 
2.43.0


From de1c8c2fdd3aa1c8af03ca652d40c5bb1b0ed347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:47 +0000
Subject: [PATCH 14/44] fix: formula for the density of dry air

---
 openamundsen/meteo/atmosphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/atmosphere.py b/openamundsen/meteo/atmosphere.py
index 2d76a1a..4caa8c5 100644
--- a/openamundsen/meteo/atmosphere.py
+++ b/openamundsen/meteo/atmosphere.py
@@ -71,7 +71,7 @@ def dry_air_density(temp, pressure):
     density : numeric
         Dry air density (kg m-3).
     """
-    return pressure * (c.GAS_CONSTANT_DRY_AIR * temp)
+    return pressure / (c.GAS_CONSTANT_DRY_AIR * temp)
 
 
 def latent_heat_of_vaporization(temp):
-- 
2.43.0


From 0cc55cca4c34a5ff99e08b0403c16b04081b33fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:20 +0000
Subject: [PATCH 15/44] fix: normalization of constant arrays

Previously, wind speeds interpolated using the "liston" method were NaN for
flat or uniformly sloped domains and for single-pixel ROIs.
---
 openamundsen/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openamundsen/util.py b/openamundsen/util.py
index b486fa3..91f7641 100644
--- a/openamundsen/util.py
+++ b/openamundsen/util.py
@@ -380,5 +380,10 @@ def normalize_array(data, min, max):  # noqa: A002
     data = np.asarray(data)
     data_min = np.nanmin(data)
     data_max = np.nanmax(data)
+
+    if data_min == data_max:
+        # The scale is undefined for constant data, return the center of the range
+        return np.where(np.isnan(data), np.nan, (min + max) / 2)
+
     scale_factor = (max - min) / (data_max - data_min)
     return min + scale_factor * (data - data_min)
-- 
2.43.0


From b8f5922fbe3d5fa1bd8644b55759940462e5f507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:20 +0000
Subject: [PATCH 16/44] fix: humidity interpolation if a station records a
 relative humidity of 0%

The undefined dew point temperature caused the humidity trend and thus the
entire interpolated field to become NaN.
---
 openamundsen/meteo/interpolation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 8ecc1f9..3f0c822 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -431,7 +431,16 @@ def interpolate_param(
 
         rel_hums = data
         dew_point_temps = meteo.dew_point_temperature(temps, rel_hums)
-        data = dew_point_temps
+
+        # The dew point is undefined for a relative humidity of 0%, ignore these points
+        pos = np.isfinite(dew_point_temps)
+        if not np.any(pos):
+            return (np.full(target_xs.shape, np.nan), interpolation_params)
+
+        data = dew_point_temps[pos]
+        xs = xs[pos]
+        ys = ys[pos]
+        zs = zs[pos]
 
     regression_params = param_config.get("regression_params", {})
     max_segments = regression_params.get("max_segments", 1)
-- 
2.43.0


From 13fcc79b7812f93e004be074fb1758038b448bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:07 +0000
Subject: [PATCH 17/44] fix: mass conservation of the canopy snow interception

- Intercepted snow disappeared if the interception capacity fell below the
  current load (decreasing LAI) and it was snowing.
- Missing temperature or precipitation values permanently set the interception
  storage to NaN.
---
 openamundsen/modules/canopy/canopy.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index fd74e93..335f0e5 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -187,12 +187,12 @@ class CanopyModel:
         max_interception_storage = (
             model.config.canopy.max_interception_storage_coefficient * s.land_cover.lai_eff[pos]
         )
-        new_canopy_intercepted_load = s.snow.canopy_intercepted_load[pos] + 0.7 * (
+        intercepted_snowfall = 0.7 * (
             max_interception_storage - s.snow.canopy_intercepted_load[pos]
-        ) * (1 - np.exp(-s.meteo.snowfall[pos] / max_interception_storage))
-        s.snow.canopy_intercepted_snowfall[pos] = (
-            new_canopy_intercepted_load - s.snow.canopy_intercepted_load[pos]
-        ).clip(min=0)
+        ).clip(min=0) * (1 - np.exp(-s.meteo.snowfall[pos] / max_interception_storage))
+        intercepted_snowfall[np.isnan(intercepted_snowfall)] = 0.0
+        new_canopy_intercepted_load = s.snow.canopy_intercepted_load[pos] + intercepted_snowfall
+        s.snow.canopy_intercepted_snowfall[pos] = intercepted_snowfall
         s.snow.canopy_intercepted_load[pos] = new_canopy_intercepted_load
 
         # Canopy exposure coefficient (eq. (23))
@@ -218,7 +218,7 @@ class CanopyModel:
         # Instead of applying an additional scaling factor to the default degree day factors for
         # snow on the ground as in [1], here a distinct degree day factor for canopy-intercepted
         # snow is used directly.
-        s.snow.canopy_melt[pos] = np.minimum(
+        canopy_melt = np.minimum(
             (
                 model.config.canopy.degree_day_factor
                 * (s.meteo.temp[pos] - c.T0).clip(min=0)
@@ -227,6 +227,9 @@ class CanopyModel:
             ),
             s.snow.canopy_intercepted_load[pos],
         )
+        # No unloading if temperature or snowfall are missing
+        canopy_melt[np.isnan(canopy_melt) | np.isnan(s.meteo.snowfall[pos])] = 0.0
+        s.snow.canopy_melt[pos] = canopy_melt
         s.snow.canopy_intercepted_load[pos] -= s.snow.canopy_melt[pos]
 
         # Precipitation reaching the ground: reduce snowfall by canopy interception and increase by
-- 
2.43.0


From e61461eb31a15097379b9c13cf832435dd3685e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:07 +0000
Subject: [PATCH 18/44] fix: deep percolation from the evaporation layer

Eq. (79) of Allen et al. (1998) uses the depletion of the surface layer
(D_e,i-1), not the percolation of the previous time step.
---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index aeb9bc6..18df8ad 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -480,7 +480,7 @@ class EvapotranspirationModel:
             precip
             - precip_runoff
             + irrigation / wetted_frac
-            - s_et.deep_percolation_evaporation_layer[pos]
+            - s_et.cum_soil_surface_depletion[pos]
         ).clip(min=0)
         s_et.cum_soil_surface_depletion[pos] = (  # eq. (77)
             s_et.cum_soil_surface_depletion[pos]
-- 
2.43.0


From 6b0046680137f14fb9820b9af3d3b51bc12df592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:07 +0000
Subject: [PATCH 19/44] fix: air density in the evaporation calculation for
 sealed surfaces

---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index 18df8ad..935e70d 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -579,7 +579,7 @@ class EvapotranspirationModel:
         ea = s.meteo.vap_press[pos_dry]  # actual vapor pressure (Pa)
 
         Tv = 1.01 * s.meteo.top_canopy_temp[pos_dry]  # virtual temperature (K)
-        rhoa = s.meteo.atmos_press[pos_dry] / c.GAS_CONSTANT_DRY_AIR * Tv  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
+        rhoa = s.meteo.atmos_press[pos_dry] / (c.GAS_CONSTANT_DRY_AIR * Tv)  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
         cp = (  # specific heat at constant pressure (J kg-1 K-1) (p. 26)
             gamma * 0.622 * c.LATENT_HEAT_OF_VAPORIZATION / s.meteo.atmos_press[pos_dry]
         )
-- 
2.43.0


From 6350620878eef7490dc82119e0af4b9ace346d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:07 +0000
Subject: [PATCH 20/44] fix: LAI calculation for growing seasons composed of
 several subcycles

---
 openamundsen/landcover.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/landcover.py b/openamundsen/landcover.py
index 98c9676..30ac286 100644
--- a/openamundsen/landcover.py
+++ b/openamundsen/landcover.py
@@ -68,8 +68,8 @@ class LandCover:
 
             lcc_lai = modules.evapotranspiration.crop_coefficient(
                 growing_period_day,
-                0,  # no initial period with constant LAI
-                length_ini + length_dev,
+                np.zeros_like(length_ini),  # no initial period with constant LAI
+                np.add(length_ini, length_dev),
                 length_mid,
                 length_late,
                 min_lai,
-- 
2.43.0


From 90fc2404ba2ea81673113e012081ad99f95bac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:45 +0000
Subject: [PATCH 21/44] fix: mass conservation of the glacier geometry update

Ice thicknesses were converted to mass using a different density than the
one of the ice layer, so that every update created ice on all pixels
(also those which are not part of the update).
---
 openamundsen/modules/glacier/glaciermodel.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e274eae..e62d0cf 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -64,8 +64,8 @@ class GlacierModel:
         ice_mb = mb_layers[CryoLayerID.ICE, :]
         firn_mb = mb_layers[CryoLayerID.FIRN, :]
         mb = ice_mb + firn_mb
-        old_ice_thickness = self.mass_balance_start_we[CryoLayerID.ICE, :] / c.ICE_DENSITY
-        new_ice_thickness = s.snow.thickness[CryoLayerID.ICE, :].copy()
+        old_ice_we = self.mass_balance_start_we[CryoLayerID.ICE, :]
+        old_ice_thickness = old_ice_we / c.ICE_DENSITY
 
         for gid in self.glacier_ids:
             gpos = (s.glaciers.glacier == gid) & (old_ice_thickness > 0.0)
@@ -121,14 +121,18 @@ class GlacierModel:
                 max_allowed_change,
             )
 
-            new_ice_thickness[update_pos] = (
-                old_ice_thickness[update_pos] + (mass_change - firn_mb[update_pos]) / c.ICE_DENSITY
+            # Only the mass of the updated pixels changes; the layer thicknesses are subsequently
+            # derived from the mass and the density of the ice layer
+            s.snow.ice_content[CryoLayerID.ICE, update_pos] = (
+                old_ice_we[update_pos] + mass_change - firn_mb[update_pos]
             ).clip(min=0.0)
-
-        s.snow.thickness[CryoLayerID.ICE, :] = new_ice_thickness
-        s.snow.ice_content[CryoLayerID.ICE, :] = new_ice_thickness * c.ICE_DENSITY
+            s.snow.liquid_water_content[CryoLayerID.ICE, update_pos] = 0.0
+            s.snow.density[CryoLayerID.ICE, update_pos] = (
+                model.config.snow.cryolayers.transition.ice
+            )
 
         model.snow.update_layers()
+        model.snow.update_properties()
 
         # TODO: when glacier advance is enabled, update the previous ice mass distributions here
 
-- 
2.43.0


From 7f75539e5ff757441084f7b87717e9002aac89ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:45 +0000
Subject: [PATCH 22/44] fix: glacier geometry update for glaciers without
 elevation differences

---
 openamundsen/modules/glacier/glaciermodel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e62d0cf..b3527a8 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -170,6 +170,10 @@ def _ice_mass_change(elevs, total_mb, glacier_area, max_allowed_change):
     if total_mb < 0:
         min_elev = elevs.min()
         max_elev = elevs.max()
+        if max_elev == min_elev:
+            # No elevation differences -> distribute the mass loss equally over all glacier pixels
+            return np.full(elevs.size, total_mb / elevs.size)
+
         normalized_elevs = (max_elev - elevs) / (max_elev - min_elev)
         delta_h = _delta_h(normalized_elevs, glacier_area)
         fs = total_mb / delta_h.sum()
@@ -209,6 +213,9 @@ def _mass_loss_surplus_distribution(mass_loss, elevs):
     max_elev = elevs.max()
     min_mass = 0.0
 
+    if max_elev == min_elev:
+        return np.full(elevs.size, mass_loss / elevs.size)
+
     x0 = 0.0
     x1 = mass_loss / elevs.size * 1.5
     y0 = np.sum(_scale_mass_loss_surplus(mass_loss, elevs, min_elev, max_elev, min_mass, x0))
-- 
2.43.0


From 37b0e861553be16372e4b18f1366b426217b578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:57 +0000
Subject: [PATCH 23/44] fix: alignment of the daily aggregation periods with
 the model dates

When aggregating sub-daily data to daily time steps, the aggregation periods
started at the first record of the file, so that for files starting in the
middle of the day before the start date (or for model runs not starting at
midnight) the results did not match the model dates and complete station data
was rejected. The last day was also truncated for runs not starting at
midnight.
---
 openamundsen/fileio/meteo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index e9558ee..3ca876b 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -328,7 +328,7 @@ def _slice_and_resample_dataset(ds, start_date, end_date, freq, aggregate=False)
             )
             aggregate = True
 
-        end_date = (end_date + td_1d).normalize()
+        end_date = end_date + td_1d
 
     if inferred_freq is not None and inferred_freq != freq:
         # keep data from previous day for aggregation, if present
@@ -381,7 +381,7 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
         resample_kwargs = {
             "label": "left",
             "closed": "right",
-            "origin": "start",
+            "origin": pd.Timestamp(start_date),
         }
     else:
         raise errors.MeteoDataError("Resampling to frequencies > 1 day is not supported")
-- 
2.43.0


From 50445b979ad3e63faefd74690577fa0e8699d6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:57 +0000
Subject: [PATCH 24/44] fix: do not resample daily station data for daily model
 runs

With the time step specified as "1D" or "24h", daily station data (inferred
frequency "D") was treated as if it had a different frequency, shifting
precipitation, wind gusts, and (with aggregation enabled) all other variables
by one day. Files with less than three records raised an exception.
---
 openamundsen/fileio/meteo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 3ca876b..611e8aa 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -320,7 +320,11 @@ def _slice_and_resample_dataset(ds, start_date, end_date, freq, aggregate=False)
         # time series inferred_freq is always None)
         raise errors.MeteoDataError("File contains missing records or non-uniform timesteps")
 
-    if freq_td == td_1d and util.offset_to_timedelta(inferred_freq) < td_1d:
+    if (
+        freq_td == td_1d
+        and inferred_freq is not None
+        and util.offset_to_timedelta(inferred_freq) < td_1d
+    ):
         if not aggregate:
             logger.warning(
                 "File contains sub-daily data. Data will be aggregated to daily time steps despite "
@@ -330,7 +334,7 @@ def _slice_and_resample_dataset(ds, start_date, end_date, freq, aggregate=False)
 
         end_date = end_date + td_1d
 
-    if inferred_freq is not None and inferred_freq != freq:
+    if inferred_freq is not None and util.to_offset(inferred_freq) != util.to_offset(freq):
         # keep data from previous day for aggregation, if present
         ds = ds.sel(time=slice(start_date - td_1d, end_date))
         ds = _resample_dataset(ds, start_date, end_date, freq, aggregate=aggregate)
-- 
2.43.0


From 44e885e8a1c900df1c7fdd991c8c9ca59de16d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:57 +0000
Subject: [PATCH 25/44] fix: aggregation of station data ending before the end
 of the model run

If the last aggregation period was incomplete, or no data was left for the
model period, reading the data failed with a misleading or an unhandled
exception, even with missing data checks disabled.
---
 openamundsen/fileio/meteo.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 611e8aa..f7f96c5 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -406,9 +406,7 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
             df_res["wind_dir"] = _aggregate_wind_dir(df, freq, resample_kwargs)
 
         # We might end up with an extra bin after resampling; remove it here
-        df_res = df_res.loc[start_date:end_date]
-        if df_res.index[0] < df.index[0]:
-            df_res = df_res.iloc[1:]
+        df_res = df_res.loc[start_date:end_date].loc[df.index[0] : df.index[-1]]
     else:
         # Take the instantaneous values
         df_res = df.reindex(
-- 
2.43.0


From 7e9a6fed955a294879fcc11e06a9989e9d14eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:57 +0000
Subject: [PATCH 26/44] fix: station data must always cover all model dates

If the available stations covered disjoint periods, the dates in between were
missing in the combined dataset and the model run aborted upon reaching them.
---
 openamundsen/fileio/meteo.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index f7f96c5..e42203c 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -149,19 +149,17 @@ def read_meteo_data(
     ds_combined = forcing.combine_point_datasets(datasets)
     dates_combined = ds_combined.time.to_index()
 
-    if dates_combined[0] > start_date or dates_combined[-1] < end_date:
-        if not raise_on_missing_data:
-            ds_combined = ds_combined.reindex(
-                time=pd.date_range(start=start_date, end=end_date, freq=freq),
-            )
-        else:
-            raise errors.MeteoDataError(
-                "Insufficient meteo data available.\n"
-                + f"Requested period: {start_date}..{end_date}\n"
-                + f"Available period: {dates_combined[0]}..{dates_combined[-1]}"
-            )
+    if raise_on_missing_data and (
+        dates_combined[0] > start_date or dates_combined[-1] < end_date
+    ):
+        raise errors.MeteoDataError(
+            "Insufficient meteo data available.\n"
+            + f"Requested period: {start_date}..{end_date}\n"
+            + f"Available period: {dates_combined[0]}..{dates_combined[-1]}"
+        )
 
-    return ds_combined
+    # The dates covered by the stations do not necessarily comprise all model dates
+    return ds_combined.reindex(time=pd.date_range(start=start_date, end=end_date, freq=freq))
 
 
 def read_netcdf_meteo_file(filename):
-- 
2.43.0


From c1950714133e4e0f951f8261e49a7b42d2731776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:57 +0000
Subject: [PATCH 27/44] fix: detection of cloud fractions given as 0-1 values

The length check was applied to the number of variables in the dataset
instead of to the number of time steps, and the units attribute was not
taken into account. Also show the actual units in the error message for
unexpected units.
---
 openamundsen/forcing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openamundsen/forcing.py b/openamundsen/forcing.py
index 9dbb627..ece9b6e 100644
--- a/openamundsen/forcing.py
+++ b/openamundsen/forcing.py
@@ -143,7 +143,9 @@ def make_point_dataset(
             # <= 1. (As the cloud_fraction model variable has units "1" but for the forcing data
             # units "%" are expected, this could happen easily.)
             if data["cloud_fraction"].attrs.get("units") == "1" or (
-                len(data) > 10 and data["cloud_fraction"].max() <= 1
+                "units" not in data["cloud_fraction"].attrs
+                and data.sizes["time"] > 10
+                and data["cloud_fraction"].max() <= 1
             ):
                 data["cloud_fraction"] *= 100
                 data["cloud_fraction"].attrs["units"] = "%"
@@ -151,7 +153,7 @@ def make_point_dataset(
         units = meta["units"]
         if "units" in data[var].attrs and data[var].units != units:
             raise errors.MeteoDataError(
-                f"{var} has wrong units: expected {units}, got {ds[var].units}"
+                f"{var} has wrong units: expected {units}, got {data[var].units}"
             )
 
         ds[var].values[:] = data[var].values
-- 
2.43.0


From f93ccd4bb171c6624ec7ebb3a00882843adf1114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:12 +0000
Subject: [PATCH 28/44] fix: do not alter the passed configuration when
 converting deprecated parameters

parse_config() removed the deprecated wind_speed, day_method, and night_method
keys from the dictionary passed by the user.
---
 openamundsen/conf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openamundsen/conf.py b/openamundsen/conf.py
index 96ed4c6..a01d01a 100644
--- a/openamundsen/conf.py
+++ b/openamundsen/conf.py
@@ -57,11 +57,14 @@ class ConfigurationValidator(cerberus.Validator):
     def _normalize_coerce_meteo_interpolation(self, d: dict[str, Any]) -> dict[str, Any]:
         # 'wind_speed' is deprecated -> change to 'wind'
         if "wind_speed" in d:
+            d = dict(d)  # do not alter the passed configuration
             d["wind"] = d.pop("wind_speed")
 
         return d
 
     def _normalize_coerce_cloudiness(self, d: dict[str, Any]) -> dict[str, Any]:
+        d = dict(d)  # do not alter the passed configuration
+
         # 'day_method' is deprecated -> change to 'method'
         if "day_method" in d:
             if "method" not in d:
-- 
2.43.0


From 4f6d93dd5d75a753195d0d31cdcb365532854993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:47 +0000
Subject: [PATCH 29/44] fix: race condition in the topographic openness
 calculation

The loop over the search distances was parallelized although all iterations
update the same minimum array, so that updates got lost and the result was
wrong and differed from call to call when using more than one thread.
---
 openamundsen/terrain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openamundsen/terrain.py b/openamundsen/terrain.py
index 0a215b1..0d44fb1 100644
--- a/openamundsen/terrain.py
+++ b/openamundsen/terrain.py
@@ -1,7 +1,7 @@
 import logging
 
 import numpy as np
-from numba import njit, prange
+from numba import njit
 
 from openamundsen.modules.radiation import shadows
 
@@ -333,7 +333,7 @@ def openness(dem, res, L, negative=False, mean=True):
     return opn
 
 
-@njit(cache=True, parallel=True)
+@njit(cache=True)
 def _openness_dir(dem, res, L, dir):  # noqa: A002
     """
     Calculate topographic openness for a DEM and a single compass direction.
@@ -360,7 +360,7 @@ def _openness_dir(dem, res, L, dir):  # noqa: A002
     """
     opn_dir = np.full(dem.shape, np.inf)
 
-    for i in prange(int(np.ceil(L / res))):
+    for i in range(int(np.ceil(L / res))):
         dist = res * (i + 1) * [1, np.sqrt(2)][dir % 2]
         Z_shift = _shift_arr_retain(dem, dir, i)
         angle = np.pi / 2 - np.arctan2(Z_shift - dem, dist)
-- 
2.43.0


From 1aee37add40bbfa5977ca9c6496b6f614ee6abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:42 +0000
Subject: [PATCH 30/44] fix: take snow/cloud emissivity and rock emission
 factor from the configuration

---
 openamundsen/modules/radiation/irradiance.py | 5 ++---
 openamundsen/surface.py                      | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index edbb57a..782af11 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -289,9 +289,8 @@ def longwave_irradiance(model):
     m = model.state.meteo
     clear_sky_emissivity = meteo.clear_sky_emissivity(m.precipitable_water[roi])
 
-    # TODO these should be parameters
-    cloud_emissivity = 0.976  # emissivity of totally overcast skies (Greuell et al., 1997) # noqa: E501 # fmt: skip
-    rock_emission_factor = 0.01  # (K W-1 m2) temperature of emitting rocks during daytime is assumed to be higher than the air temperature by this factor multiplied by the incoming shortwave radiation (Greuell et al., 1997) # noqa: E501
+    cloud_emissivity = model.config.meteo.radiation.cloud_emissivity
+    rock_emission_factor = model.config.meteo.radiation.rock_emission_factor
 
     # Incoming longwave radiation from the clear sky
     lw_in_clearsky = (
diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 9499c6c..9fe4150 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -509,8 +509,7 @@ def calc_radiation_balance(model, pos):
     """
     s = model.state
 
-    # TODO this should be a parameter
-    snow_emissivity = 0.99
+    snow_emissivity = model.config.meteo.radiation.snow_emissivity
 
     s.meteo.sw_out[pos] = s.surface.albedo[pos] * s.meteo.sw_in[pos]
     s.meteo.lw_out[pos] = snow_emissivity * constants.STEFAN_BOLTZMANN * s.surface.temp[pos] ** 4
-- 
2.43.0


From 12bac40b14a6dbeeae62f5a616d5b769410b17fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:42 +0000
Subject: [PATCH 31/44] fix: ignore stations outside the ROI for the
 radiation-based cloudiness calculation

---
 openamundsen/modules/radiation/irradiance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index 782af11..6851c10 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -108,7 +108,7 @@ def extended_grid_stations_clear_sky_shortwave_irradiance(model):
     )
 
     meteo_ds = model.meteo.sel(
-        station=stations_within_ext_grid & ~model.meteo.within_grid_extent
+        station=stations_within_ext_grid & ~model.meteo.within_roi
     ).sel(time=model.date)
     # Consider only stations with temperature and humidity measurements (required for calculating
     # precipitable water)
@@ -181,9 +181,9 @@ def shortwave_irradiance(model):
             method = "clear_sky_fraction"
 
     if method == "clear_sky_fraction":
-        # Select stations within the grid extent and with shortwave radiation measurements for the
-        # current time step
-        ds_rad = meteo_ds.sel(station=model.meteo.within_grid_extent).dropna(
+        # Select stations within the ROI (the clear-sky irradiance is only available there) and with
+        # shortwave radiation measurements for the current time step
+        ds_rad = meteo_ds.sel(station=model.meteo.within_roi).dropna(
             "station",
             subset=["sw_in"],
         )
-- 
2.43.0


From 675a1a51f6f2223982f4c4f4a983915a1b69dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:08 +0000
Subject: [PATCH 32/44] fix: do not add pixels without a valid elevation to the
 ROI when extending it with stations

---
 openamundsen/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 3d7000e..cb83403 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -184,6 +184,14 @@ class OpenAmundsen:
         # Extend ROI with the station positions
         if config.extend_roi_with_stations:
             pos_outside_roi_stations = self.meteo.within_grid_extent & ~self.meteo.within_roi
+
+            # Do not add pixels where the DEM is NaN (these are generally excluded from the ROI)
+            for station in np.flatnonzero(pos_outside_roi_stations):
+                row = int(self.meteo.row[station])
+                col = int(self.meteo.col[station])
+                if np.isnan(self.state.base.dem[row, col]):
+                    pos_outside_roi_stations[station] = False
+
             any_outside_roi_stations = np.any(pos_outside_roi_stations)
             if any_outside_roi_stations:
                 self.meteo.within_roi[pos_outside_roi_stations] = True
-- 
2.43.0


From 175bb0039679065db89b30fdc953e1afc939382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:20 +0000
Subject: [PATCH 33/44] fix: allow for rounding errors when checking the
 alignment of the extended DEM

---
 openamundsen/model.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index cb83403..f8089ff 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -725,27 +725,17 @@ class OpenAmundsen:
         grid_transform = self.grid.transform
         ext_transform = ext_meta["transform"]
         grid_ul_xy = rasterio.transform.xy(grid_transform, 0, 0, offset="ul")
-        grid_lr_xy = rasterio.transform.xy(
-            grid_transform,
-            self.grid.rows - 1,
-            self.grid.cols - 1,
-            offset="lr",
-        )
-        ext_ul_xy = rasterio.transform.xy(ext_transform, 0, 0, offset="ul")
-        ext_lr_xy = rasterio.transform.xy(
-            ext_transform,
-            ext_meta["rows"] - 1,
-            ext_meta["cols"] - 1,
-            offset="lr",
-        )
         ext_offset_ul = rasterio.transform.rowcol(ext_transform, *grid_ul_xy, op=float)
-        if not (float.is_integer(ext_offset_ul[0]) and float.is_integer(ext_offset_ul[1])):
+        row_offset = int(np.round(ext_offset_ul[0]))
+        col_offset = int(np.round(ext_offset_ul[1]))
+        # (allow for rounding errors when comparing the coordinates)
+        if not np.allclose(ext_offset_ul, (row_offset, col_offset), rtol=0, atol=1e-6):
             raise errors.RasterFileError("Extended DEM is not aligned correctly")
         if not (
-            grid_ul_xy[0] >= ext_ul_xy[0]
-            and grid_ul_xy[1] <= ext_ul_xy[1]
-            and grid_lr_xy[0] <= ext_lr_xy[0]
-            and grid_lr_xy[1] >= ext_lr_xy[1]
+            row_offset >= 0
+            and col_offset >= 0
+            and row_offset + self.grid.rows <= ext_meta["rows"]
+            and col_offset + self.grid.cols <= ext_meta["cols"]
         ):
             raise errors.RasterFileError("Extended DEM does not fully cover the model grid")
 
@@ -767,8 +757,6 @@ class OpenAmundsen:
             logger.debug(f"Writing extended sky view factor file ({extended_svf_file})")
             fileio.write_raster_file(extended_svf_file, ext_svf, ext_transform, decimal_precision=3)
 
-        row_offset = int(ext_offset_ul[0])
-        col_offset = int(ext_offset_ul[1])
         self.grid.extended_grid.available = True
         self.grid.extended_grid.rows = ext_dem.shape[0]
         self.grid.extended_grid.cols = ext_dem.shape[1]
-- 
2.43.0


From dbf735bd356426b7cd8256a302639ac3a8d045ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:58 +0000
Subject: [PATCH 34/44] fix: keep longwave irradiance defined after a gap in
 the air temperature

In the cryolayer model the surface temperature is undefined in time steps with missing air temperature. As the longwave irradiance of the following time step depends on it, also this time step was lost although its forcing was complete.
---
 openamundsen/modules/radiation/irradiance.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index 6851c10..007be63 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -313,12 +313,18 @@ def longwave_irradiance(model):
     # Incoming longwave radiation from surrounding slopes
     snowfree_count = (model.state.snow.swe[roi] == 0).sum()
     rock_fraction = snowfree_count / model.grid.roi.sum()
+    surface_temp = model.state.surface.temp[roi]
+    surface_temp = np.where(  # might be missing due to a data gap in the previous time step
+        np.isnan(surface_temp),
+        np.minimum(m.temp[roi], constants.T0),
+        surface_temp,
+    )
     lw_in_slopes = (
         constants.STEFAN_BOLTZMANN
         * (1 - model.state.base.svf[roi])
         * (
             rock_fraction * (m.temp[roi] + rock_emission_factor * m.sw_in[roi]) ** 4
-            + (1 - rock_fraction) * model.state.surface.temp[roi] ** 4
+            + (1 - rock_fraction) * surface_temp**4
         )
     )
 
-- 
2.43.0


From aa7cffe5e59441d05fec9872ef07dc246e486144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 35/44] fix: define the unfrozen moisture fraction of
 completely dry soil

It was never set for a soil moisture of zero, so that the surface conductance, the moisture flux
and, as a consequence, the surface temperature were undefined or never updated.
---
 openamundsen/modules/soil/soil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openamundsen/modules/soil/soil.py b/openamundsen/modules/soil/soil.py
index f45aeef..ce7372c 100644
--- a/openamundsen/modules/soil/soil.py
+++ b/openamundsen/modules/soil/soil.py
@@ -205,6 +205,8 @@ def _soil_properties(
                     i, j
                 ]
             else:  # vol_moisture_content[k, i, j] == 0
+                frac_unfrozen_moisture_content[k, i, j] = 0.0
+                frac_frozen_moisture_content[k, i, j] = 0.0
                 heat_cap[k, i, j] = vol_heat_cap_dry[i, j] * thickness[k, i, j]
                 therm_cond[k, i, j] = therm_cond_dry[i, j]
 
-- 
2.43.0


From c33e5be953ebccf6c97953d3c0097d3b82f2481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:33 +0000
Subject: [PATCH 36/44] fix: calculate cryolayer latent heat flux for the
 clipped surface temperature
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

When the iterated surface temperature exceeds the melting point it is set to 0 °C, but the
saturation specific humidity (and hence moisture flux and sublimation) was still that of the
warmer surface.
---
 openamundsen/surface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 9fe4150..4a38263 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -900,3 +900,4 @@ def iterate_surface_temperature(model, frosties):
 
         # TODO calculate melt when surface temperature is positive after iteration?
         s.surface.temp[frosties] = s.surface.temp[frosties].clip(max=constants.T0)
+        calc_saturation_specific_humidity(model, frosties)
-- 
2.43.0


From 41ebc69c631daf12866e98cec1e89236ea61a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:05 +0000
Subject: [PATCH 37/44] fix: use the latent heat of sublimation over old snow,
 firn and ice

Only the topmost layer was checked for ice, which in the cryo layer model is the (often empty) new
snow layer, so that melting old snow, firn and ice exchanged the latent heat of vaporization while
ice was removed or deposited by sublimation.
---
 openamundsen/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 4a38263..03957bb 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -588,7 +588,7 @@ def calc_latent_heat(model, pos):
     s = model.state
     lat_heat_vap = meteo.latent_heat_of_vaporization(s.meteo.temp[pos])
     s.surface.lat_heat[pos] = np.where(
-        (s.snow.ice_content[0, pos] > 0) | (s.surface.temp[pos] < constants.T0),
+        (s.snow.ice_content[:, pos] > 0).any(axis=0) | (s.surface.temp[pos] < constants.T0),
         lat_heat_vap + constants.LATENT_HEAT_OF_FUSION,
         lat_heat_vap,
     )
-- 
2.43.0


From d51697ce69f39c88a55a3c7d8268ec2e77829ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:05 +0000
Subject: [PATCH 38/44] fix: limit the legacy surface temperature iteration for
 each pixel separately

The lower limit of the iterated temperature (3 K below air temperature) was that of the coldest
pixel of the domain, so that the surface temperature of a pixel depended on the other pixels.
---
 openamundsen/surface.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 03957bb..abe926d 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -863,11 +863,15 @@ def iterate_surface_temperature(model, frosties):
         en_bal = np.zeros(roi.shape)
         iteraties = frosties
         max_temp = constants.T0
-        min_temp = s.meteo.temp[frosties].min() - 3.0
+        min_temp = s.meteo.temp - 3.0
         temp_inc = -0.25
-        for surf_temp_iter in np.arange(max_temp, min_temp - 1e-6, temp_inc):
+        for surf_temp_iter in np.arange(max_temp, min_temp[frosties].min() - 1e-6, temp_inc):
             en_bal[iteraties] = energy_balance_remainder(model, iteraties, surf_temp_iter)
-            iteraties = model.roi_mask_to_global(frosties[roi] & (en_bal[roi] < 0.0))
+            iteraties = model.roi_mask_to_global(
+                frosties[roi]
+                & (en_bal[roi] < 0.0)
+                & (surf_temp_iter + temp_inc >= min_temp[roi] - 1e-6)
+            )
     elif method == "secant":
         tol = 1e-2
 
-- 
2.43.0


From e1310e8fec7afda3b8599dc41d896c47f041db2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:20 +0000
Subject: [PATCH 39/44] fix: sort explicit grid output dates and drop
 duplicates

Time bounds and file names of aggregated fields were wrong for unordered lists of
output dates, and repeated dates gave an additional empty time slice or (for NetCDF
output in append mode) an exception.
---
 openamundsen/fileio/griddedoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/griddedoutput.py b/openamundsen/fileio/griddedoutput.py
index 2194c9a..b1cd7ce 100644
--- a/openamundsen/fileio/griddedoutput.py
+++ b/openamundsen/fileio/griddedoutput.py
@@ -102,7 +102,7 @@ class GriddedOutputManager:
                 agg = None
 
             if "dates" in field_cfg:
-                write_dates = pd.to_datetime(field_cfg["dates"])
+                write_dates = pd.to_datetime(field_cfg["dates"]).unique().sort_values()
             else:
                 write_dates = _freq_write_dates(model.dates, freq, agg is not None)
 
-- 
2.43.0


From e3b368369fc725f1630be10461657f03ee4b220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:08 +0000
Subject: [PATCH 40/44] fix: keep the horizon when shadow scanning lines cross
 pixels without elevation

A missing elevation reset the horizon, so pixels behind it were considered
illuminated although terrain towards the sun blocks it.
---
 openamundsen/modules/radiation/shadows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/radiation/shadows.py b/openamundsen/modules/radiation/shadows.py
index f7c05fe..bfa12bc 100644
--- a/openamundsen/modules/radiation/shadows.py
+++ b/openamundsen/modules/radiation/shadows.py
@@ -90,7 +90,7 @@ def shadows(dem, res, sun_vec, num_sweeps=1):
 
             if z_proj < max_z_proj:
                 illum[idy, jdx] = 0
-            else:
+            elif not np.isnan(z_proj):  # (keep the horizon when crossing pixels without elevation)
                 max_z_proj = z_proj
 
     return illum
-- 
2.43.0


From 8bb15740bf422e50e1b01f50d7923a22440fabe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:50 +0000
Subject: [PATCH 41/44] fix: do not treat an unknown precipitation phase as
 rain for pixels below

---
 openamundsen/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index f8089ff..38ad97e 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -867,7 +867,8 @@ class OpenAmundsen:
             # precipitation is 100% rain (might happen in inversion situations otherwise).
             # Note: this is not fully consistent because in correct_station_precipitation() still
             # the "wrong" snowfall fraction is used.
-            rain_pixels = snowfall_frac == 0
+            # (Pixels where the precipitation phase is unknown do not count here.)
+            rain_pixels = (snowfall_frac == 0) & np.isfinite(pp_temp[roi])
             if np.any(rain_pixels):
                 max_rain_elev = np.max(roi_dem[rain_pixels])
                 snowfall_frac = np.where(roi_dem <= max_rain_elev, 0, snowfall_frac)
-- 
2.43.0


From d0f1b2825deab4da3ac2d1d40f8d7d78dfa85259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:14 +0000
Subject: [PATCH 42/44] fix: reset boolean state variables

---
 openamundsen/statevars.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/statevars.py b/openamundsen/statevars.py
index 24132a8..f9bc53d 100644
--- a/openamundsen/statevars.py
+++ b/openamundsen/statevars.py
@@ -12,6 +12,7 @@ _DTYPE_INIT_VALS = {
 }
 _DTYPE_INIT_VALS[np.dtype("float64")] = _DTYPE_INIT_VALS[float]
 _DTYPE_INIT_VALS[np.dtype("int64")] = _DTYPE_INIT_VALS[int]
+_DTYPE_INIT_VALS[np.dtype("bool")] = _DTYPE_INIT_VALS[bool]
 
 
 class StateVariableManager:
-- 
2.43.0


From fbb0617423792e9bd0b388aca12ced0da8dd880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:03 +0000
Subject: [PATCH 43/44] fix: ignore the regression parameters for other trend
 methods

---
 openamundsen/meteo/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 3f0c822..7f010df 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -445,7 +445,9 @@ def interpolate_param(
     regression_params = param_config.get("regression_params", {})
     max_segments = regression_params.get("max_segments", 1)
 
-    if trend_method in ("regression", "fixed", "fractional") and max_segments == 1:
+    if trend_method in ("fixed", "fractional") or (
+        trend_method == "regression" and max_segments == 1
+    ):
         # Use simple linear regression
         if trend_method == "regression":
             # When using the regression method, the passed lapse rate is overwritten
-- 
2.43.0


From dac12307253630bfbe5024f596a3cc8d421dce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 44/44] fix: read station IDs as strings from the station
 metadata file

IDs consisting of digits only were read as numbers, so that such stations could
neither be excluded nor included, and the data files of stations with leading
zeros were not found.
---
 openamundsen/fileio/meteo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index e42203c..9d88df6 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -532,7 +532,8 @@ def _read_meteo_metadata(meteo_format, meteo_data_dir, meteo_crs, grid_crs):
     elif meteo_format == "csv":
         filename = f"{meteo_data_dir}/stations.csv"
         try:
-            meta = pd.read_csv(filename, index_col=0)
+            # Station IDs are always strings (e.g. "0123"), even if they consist of digits only
+            meta = pd.read_csv(filename, index_col=0, converters={0: str})
         except FileNotFoundError as err:
             raise errors.MeteoDataError(f"Missing station metadata file ({filename})") from err
 
-- 
2.43.0

