From c2f7891cc1867fbbcc9659eae0adf05c6b817092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 01/58] fix: klucher no longer divides by zero for Python
 scalar ghi=0

A Python float ghi of zero raised ZeroDivisionError while arrays and
Series returned the documented result.
---
 pvlib/irradiance.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index 677cdba..f7750f8 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -798,8 +798,9 @@ def klucher(surface_tilt, surface_azimuth, dhi, ghi, solar_zenith,
     cos_tt = np.maximum(cos_tt, 0)  # GH 526
 
     # silence warning from 0 / 0
-    with np.errstate(invalid='ignore'):
-        F = 1 - ((dhi / ghi) ** 2)
+    # np.divide so that Python scalars behave like arrays when ghi is 0
+    with np.errstate(invalid='ignore', divide='ignore'):
+        F = 1 - (np.divide(dhi, ghi) ** 2)
 
     try:
         # fails with single point input
-- 
2.43.0


From f6b9707461de82d052c4f9bf58861c0806f43b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 02/58] fix: perez with Series input and scalar airmass added a
 bogus row

---
 pvlib/irradiance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index f7750f8..956883c 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -1333,6 +1333,9 @@ def perez(surface_tilt, surface_azimuth, dhi, dni, dni_extra,
 
     # we've preserved the input type until now, so don't ruin it!
     if isinstance(poa_sky_diffuse, pd.Series):
+        # a scalar airmass must not be used as an index label
+        if np.ndim(airmass) == 0:
+            airmass = np.full(poa_sky_diffuse.shape, airmass)
         poa_sky_diffuse[np.isnan(airmass)] = 0
     else:
         poa_sky_diffuse = np.where(np.isnan(airmass), 0, poa_sky_diffuse)
-- 
2.43.0


From 78a64df0782622003509cf43bdc806de90e4a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 03/58] fix: perez accepts the documented model name '1990'

---
 pvlib/irradiance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index 956883c..c5fa5cc 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -3448,6 +3448,9 @@ def _get_perez_coefficients(perezmodel):
             [1.4340,   -3.9940,   -0.4920,  0.4530,  -2.3760,   0.1170],
             [1.0070,   -2.2920,   -0.4820,  0.3900,  -3.3680,   0.2290]], }
 
+    # documented alias
+    coeffdict['1990'] = coeffdict['allsitescomposite1990']
+
     array = np.array(coeffdict[perezmodel])
 
     F1coeffs = array[:, 0:3]
-- 
2.43.0


From 8ac81ac270dbc67e788039a0c04659ccee0e84cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 04/58] fix: clearsky_index no longer divides by zero for
 Python scalars

---
 pvlib/irradiance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index c5fa5cc..38f27ec 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -1792,7 +1792,9 @@ def clearsky_index(ghi, ghi_clear, max_clearsky_index=2.0):
     clearsky_index : numeric
         Clearsky index. [unitless]
     """
-    clearsky_index = ghi / ghi_clear
+    # np.divide so that Python scalars behave like arrays when ghi_clear is 0
+    with np.errstate(invalid='ignore', divide='ignore'):
+        clearsky_index = np.divide(ghi, ghi_clear)
     # set +inf, -inf, and nans to zero
     clearsky_index = np.where(~np.isfinite(clearsky_index), 0,
                               clearsky_index)
-- 
2.43.0


From 94d14cfb5e08f4d1c16253f6439ddc4f3dcbc20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 05/58] fix: Location.get_airmass accepts the gueymard2003
 model

---
 pvlib/atmosphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/atmosphere.py b/pvlib/atmosphere.py
index f3b793e..761819c 100644
--- a/pvlib/atmosphere.py
+++ b/pvlib/atmosphere.py
@@ -8,7 +8,7 @@ import numpy as np
 import pandas as pd
 
 APPARENT_ZENITH_MODELS = ('simple', 'kasten1966', 'kastenyoung1989',
-                          'gueymard1993', 'pickering2002')
+                          'gueymard1993', 'gueymard2003', 'pickering2002')
 TRUE_ZENITH_MODELS = ('youngirvine1967', 'young1994')
 AIRMASS_MODELS = APPARENT_ZENITH_MODELS + TRUE_ZENITH_MODELS
 
-- 
2.43.0


From 25ada28c952883d8f86a2efbc3d1b1fd31bcbeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 06/58] fix: spa_python honours atmos_refract=0

---
 pvlib/solarposition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 4441ed0..88f42fb 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -361,7 +361,8 @@ def spa_python(time, latitude, longitude,
     elev = altitude
     pressure = pressure / 100  # pressure must be in millibars for calculation
 
-    atmos_refract = atmos_refract or 0.5667
+    if atmos_refract is None:
+        atmos_refract = 0.5667
 
     if not isinstance(time, pd.DatetimeIndex):
         try:
-- 
2.43.0


From f61f5a768d9a6a06be965ca888b919dbf880dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 07/58] fix: analytical azimuth at solar noon with the sun
 north of the zenith

---
 pvlib/solarposition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 88f42fb..b2ecf6c 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1308,6 +1308,9 @@ def solar_azimuth_analytical(latitude, hourangle, declination, zenith):
     # when NaN values occur in input, ignore and pass to output
     with np.errstate(invalid='ignore'):
         sign_ha = np.sign(hourangle)
+    # at solar noon either sign gives the right azimuth, but zero would
+    # always give south, also when the sun is north of the zenith
+    sign_ha = sign_ha + (sign_ha == 0)
 
     return sign_ha * np.arccos(cos_azi) + np.pi
 
-- 
2.43.0


From 0fd131c95e284d01aa2d92a83da1c3b049445694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 08/58] fix: hour_angle and geometric sunrise/sunset on days
 with a DST shift

---
 pvlib/solarposition.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index b2ecf6c..727bc00 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1413,8 +1413,9 @@ def hour_angle(times, longitude, equation_of_time):
     if not times.tz:
         raise ValueError('times must be localized')
 
-    # hours - timezone = (times - normalized_times) - (naive_times - times)
-    tzs = np.array([ts.utcoffset().total_seconds() for ts in times]) / 3600
+    # hours since local midnight minus the UTC offset of that midnight, which
+    # is not the offset of the timestamp on days with a DST shift
+    tzs = _utc_offset_at_local_midnight(times)
 
     hrs_minus_tzs = _times_to_hours_after_local_midnight(times) - tzs
 
@@ -1428,7 +1429,7 @@ def _hour_angle_to_hours(times, hourangle, longitude, equation_of_time):
     if not times.tz:
         raise ValueError('times must be localized')
 
-    tzs = np.array([ts.utcoffset().total_seconds() for ts in times]) / 3600
+    tzs = _utc_offset_at_local_midnight(times)
     hours = (hourangle - longitude - equation_of_time / 4.) / 15. + 12. + tzs
     return np.asarray(hours)
 
@@ -1470,6 +1471,17 @@ def _times_to_hours_after_local_midnight(times):
     return np.array(hrs)
 
 
+def _utc_offset_at_local_midnight(times):
+    """UTC offset in hours at the local midnight preceding each timestamp"""
+    # see _times_to_hours_after_local_midnight for the handling of DST shifts
+    # at midnight
+    naive_normalized_times = times.tz_localize(None).normalize()
+    normalized_times = naive_normalized_times.tz_localize(
+        times.tz, nonexistent='shift_forward', ambiguous='raise')
+    offset = naive_normalized_times - normalized_times.tz_convert(None)
+    return np.array(offset / pd.Timedelta('1h'))
+
+
 def sun_rise_set_transit_geometric(times, latitude, longitude, declination,
                                    equation_of_time):
     """
-- 
2.43.0


From 4f034e6bfebbb65bd1b12fe226e9e916817ca01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 09/58] fix: SPA sunrise/sunset/transit on the requested local
 day near the antimeridian

---
 pvlib/solarposition.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 727bc00..f13d326 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -461,8 +461,8 @@ def sun_rise_set_transit_spa(times, latitude, longitude, how='numpy',
     # not normalize after converting to UTC: an evening-local timestamp
     # falls on the following calendar day in UTC, so that would return the
     # next day's sunrise/sunset (the v0.11.1 regression, see GH #2238).
-    unixtime = _datetime_to_unixtime(
-        times.tz_localize(None).normalize().tz_localize('UTC'))
+    local_days = times.tz_localize(None).normalize()
+    unixtime = _datetime_to_unixtime(local_days.tz_localize('UTC'))
 
     spa = _spa_python_import(how)
 
@@ -472,6 +472,16 @@ def sun_rise_set_transit_spa(times, latitude, longitude, how='numpy',
     transit, sunrise, sunset = spa.transit_sunrise_sunset(
         unixtime, lat, lon, delta_t, numthreads)
 
+    # The SPA routine returns the transit that falls on the given UTC date.
+    # Close to the antimeridian the transit on the local date may fall on the
+    # previous or next UTC date instead.
+    transit_days = pd.to_datetime(transit*1e9, unit='ns', utc=True).tz_convert(
+        tzinfo).tz_localize(None).normalize()
+    shift = np.array((local_days - transit_days) / pd.Timedelta('1s'))
+    if np.any(shift != 0):
+        transit, sunrise, sunset = spa.transit_sunrise_sunset(
+            unixtime + shift, lat, lon, delta_t, numthreads)
+
     # arrays are in seconds since epoch format, need to conver to timestamps
     transit = pd.to_datetime(transit*1e9, unit='ns', utc=True).tz_convert(
         tzinfo).tolist()
-- 
2.43.0


From 32b9cef45c49001f35f7f59ae192b79740369d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 10/58] fix: get_solarposition(method='nrel_c') passed
 temperature as altitude

---
 pvlib/solarposition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index f13d326..ac5cf95 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -101,7 +101,8 @@ def get_solarposition(time, latitude, longitude,
         time = pd.DatetimeIndex([time, ])
 
     if method == 'nrel_c':
-        ephem_df = spa_c(time, latitude, longitude, pressure, temperature,
+        ephem_df = spa_c(time, latitude, longitude, pressure=pressure,
+                         altitude=altitude, temperature=temperature,
                          **kwargs)
     elif method == 'nrel_numba':
         ephem_df = spa_python(time, latitude, longitude, altitude,
-- 
2.43.0


From 775b9f7e1fdd23af908930729e1479da01d8e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 11/58] fix: geometric sunrise/sunset on the requested local
 day near the antimeridian

---
 pvlib/solarposition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index ac5cf95..67f3c62 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1441,6 +1441,10 @@ def _hour_angle_to_hours(times, hourangle, longitude, equation_of_time):
         raise ValueError('times must be localized')
 
     tzs = _utc_offset_at_local_midnight(times)
+    # where the time zone is on the other side of the antimeridian than the
+    # longitude, count the longitude on the side of the time zone. Otherwise
+    # the result is on the next or previous local day.
+    longitude = longitude + 360. * np.round((15. * tzs - longitude) / 360.)
     hours = (hourangle - longitude - equation_of_time / 4.) / 15. + 12. + tzs
     return np.asarray(hours)
 
-- 
2.43.0


From f8f96739d053c98235b9d7d03bbaf28a05b045dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 12/58] fix: geometric sunrise/sunset on days without a local
 midnight

---
 pvlib/solarposition.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 67f3c62..ec86575 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1459,8 +1459,12 @@ def _local_times_from_hours_since_midnight(times, hours):
         raise ValueError('times must be localized')
 
     # normalize local times to previous local midnight and add the hours until
-    # sunrise, sunset, and transit
-    return times.normalize() + pd.to_timedelta(hours, unit='h')
+    # sunrise, sunset, and transit. See _times_to_hours_after_local_midnight
+    # for the handling of DST shifts at midnight.
+    naive_normalized_times = times.tz_localize(None).normalize()
+    normalized_times = naive_normalized_times.tz_localize(
+        times.tz, nonexistent='shift_forward', ambiguous='raise')
+    return normalized_times + pd.to_timedelta(hours, unit='h')
 
 
 def _times_to_hours_after_local_midnight(times):
-- 
2.43.0


From 15d86b9076d7256580de5712e0508338145f6e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 13/58] fix: haurwitz truncated irradiance to integers for
 integer zenith

---
 pvlib/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index da9d197..50bee69 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -316,7 +316,7 @@ def haurwitz(apparent_zenith):
     '''
 
     cos_zenith = tools.cosd(apparent_zenith.values)
-    ghi_clear = np.zeros_like(apparent_zenith.values)
+    ghi_clear = np.zeros_like(cos_zenith)
     cos_zen_gte_0 = cos_zenith > 0
     ghi_clear[cos_zen_gte_0] = (1098.0 * cos_zenith[cos_zen_gte_0] *
                                 np.exp(-0.059/cos_zenith[cos_zen_gte_0]))
-- 
2.43.0


From 720718260ca9947944927013fc1dcbe9d61b1194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 14/58] fix: simplified_solis raised KeyError for a Series of
 length one

---
 pvlib/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index 50bee69..c17ed47 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -508,7 +508,7 @@ def _calc_taud(w, aod700, p):
             tds[1]*aod700 + tds[0] + tds[5]*np.log(p/p0))
 
     # be polite about matching the output type to the input type(s)
-    if len(taud) == 1:
+    if len(taud) == 1 and not isinstance(taud, pd.Series):
         taud = taud[0]
 
     return taud
-- 
2.43.0


From 7b6e13f6ab1906d4828e2f070f191d13bcb68627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 15/58] fix: bishop88 chandrupatla bracket: shape, dtype and
 built-in voltage

bishop88_mpp took shape and dtype of the bracket from photocurrent, so that
an integer photocurrent truncated it and a scalar photocurrent with other
array parameters raised; bishop88_v_from_i searched beyond NsVbi.
---
 pvlib/singlediode.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 974d59d..165c135 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -523,9 +523,8 @@ def bishop88_v_from_i(current, photocurrent, saturation_current,
             )
             raise ImportError(msg) from e
 
-        shape = _shape_of_max_size(current, voc_est)
-        vlo = np.zeros(shape)
-        vhi = np.full(shape, voc_est)
+        vlo = np.zeros_like(xp)
+        vhi = xp
         bounds = (vlo, vhi)
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
@@ -690,8 +689,8 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
             )
             raise ImportError(msg) from e
 
-        vlo = np.zeros_like(photocurrent)
-        vhi = np.full_like(photocurrent, voc_est)
+        vlo = np.zeros_like(xp)
+        vhi = xp
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
 
-- 
2.43.0


From 76cb1596f1348ab0bcb1f9848ace81eb8b71a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 16/58] fix: bishop88 limits the search to NsVbi only with
 recombination

---
 pvlib/singlediode.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 165c135..be14531 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -318,7 +318,8 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
         voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
         # start iteration slightly less than NsVbi when voc_est > NsVbi, to
         # avoid the asymptote at NsVbi
-        xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
+        no_limit = (voc_est < NsVbi) | np.equal(d2mutau, 0)
+        xp = np.where(no_limit, voc_est, 0.9999*NsVbi)
 
         # brentq only works with scalar inputs, so we need a set up function
         # and np.vectorize to repeatedly call the optimizer with the right
@@ -485,7 +486,8 @@ def bishop88_v_from_i(current, photocurrent, saturation_current,
     voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
     # start iteration slightly less than NsVbi when voc_est > NsVbi, to avoid
     # the asymptote at NsVbi
-    xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
+    no_limit = (voc_est < NsVbi) | np.equal(d2mutau, 0)
+    xp = np.where(no_limit, voc_est, 0.9999*NsVbi)
 
     def fi(x, i, *a):
         # calculate current residual given diode voltage "x"
@@ -653,7 +655,8 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
     voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
     # start iteration slightly less than NsVbi when voc_est > NsVbi, to avoid
     # the asymptote at NsVbi
-    xp = np.where(voc_est < NsVbi, voc_est, 0.9999*NsVbi)
+    no_limit = (voc_est < NsVbi) | np.equal(d2mutau, 0)
+    xp = np.where(no_limit, voc_est, 0.9999*NsVbi)
 
     def fmpp(x, *a):
         return bishop88(x, *a, gradients=True)[6]
-- 
2.43.0


From 9b1e843cd66878c2aefb130d664778da0d3d86e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 17/58] fix: bounded single-diode methods failed at Voc of an
 ideal device

With infinite shunt resistance the estimated Voc is the root itself, and
rounding put it outside the bracket (ValueError for brentq, NaN for
chandrupatla).
---
 pvlib/singlediode.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index be14531..e5c3836 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -10,6 +10,10 @@ from pvlib.ivtools.utils import _lambertw_pvlib, _log_lambertw
 from scipy.optimize import brentq, newton
 
 
+# widens the bracket [0, Voc_est] of the bounded methods by more than the
+# rounding error of Voc_est, which is the root itself for an ideal device
+BRACKET_MARGIN = 1 + 1e-9
+
 # newton method default parameters for this module
 NEWTON_DEFAULT_PARAMS = {
     'tol': 1e-6,
@@ -326,7 +330,7 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
         # arguments for possible array input
         def vd_from_brent(voc, v, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
                           breakdown_factor, breakdown_voltage, breakdown_exp):
-            return brentq(fv, 0.0, voc,
+            return brentq(fv, 0.0, voc * BRACKET_MARGIN,
                           args=(v, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
                                 breakdown_factor, breakdown_voltage,
                                 breakdown_exp),
@@ -355,7 +359,7 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
         voc_est = estimate_voc(photocurrent, saturation_current, nNsVth)
         shape = _shape_of_max_size(voltage, voc_est)
         vlo = np.zeros(shape)
-        vhi = np.full(shape, voc_est)
+        vhi = np.full(shape, voc_est * BRACKET_MARGIN)
         bounds = (vlo, vhi)
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
@@ -499,7 +503,7 @@ def bishop88_v_from_i(current, photocurrent, saturation_current,
         # arguments for possible array input
         def vd_from_brent(voc, i, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
                           breakdown_factor, breakdown_voltage, breakdown_exp):
-            return brentq(fi, 0.0, voc,
+            return brentq(fi, 0.0, voc * BRACKET_MARGIN,
                           args=(i, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
                                 breakdown_factor, breakdown_voltage,
                                 breakdown_exp),
@@ -526,7 +530,7 @@ def bishop88_v_from_i(current, photocurrent, saturation_current,
             raise ImportError(msg) from e
 
         vlo = np.zeros_like(xp)
-        vhi = xp
+        vhi = xp * BRACKET_MARGIN
         bounds = (vlo, vhi)
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
-- 
2.43.0


From 21bd86337aca2e785c67963ec3cc64c1e8febb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 18/58] fix: bishop88 returned NaN beyond breakdown_voltage
 without breakdown

With the default breakdown_factor=0 there is no breakdown, but reverse
voltages below the default breakdown_voltage (-5.5 V) gave NaN.
---
 pvlib/singlediode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index e5c3836..1e3eb33 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -171,7 +171,9 @@ def bishop88(diode_voltage, photocurrent, saturation_current,
     v_star = diode_voltage / nNsVth  # non-dimensional diode voltage
     g_sh = 1.0 / resistance_shunt  # conductance
 
-    brk_term = 1 - diode_voltage / breakdown_voltage
+    # without breakdown, any reverse voltage is possible
+    brk_term = np.where(np.equal(breakdown_factor, 0), 1,
+                        1 - diode_voltage / breakdown_voltage)
     brk_pwr = np.power(brk_term, -breakdown_exp)
     i_breakdown = breakdown_factor * diode_voltage * g_sh * brk_pwr
 
-- 
2.43.0


From 04eeb8b8d19154f5729b1949fc12701ac0b106de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 19/58] fix: bishop88 gradients of the reverse breakdown term

The chain rule factor -1/breakdown_voltage was missing.
---
 pvlib/singlediode.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 1e3eb33..12e52a0 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -189,11 +189,12 @@ def bishop88(diode_voltage, photocurrent, saturation_current,
         brk_pwr_1 = np.power(brk_term, -breakdown_exp - 1)
         brk_pwr_2 = np.power(brk_term, -breakdown_exp - 2)
         brk_fctr = breakdown_factor * g_sh
-        grad_i_brk = brk_fctr * (brk_pwr + diode_voltage *
-                                 -breakdown_exp * brk_pwr_1)
-        grad2i_brk = (brk_fctr * -breakdown_exp        # noqa: W503
-                      * (2 * brk_pwr_1 + diode_voltage   # noqa: W503
-                         * (-breakdown_exp - 1) * brk_pwr_2))  # noqa: W503
+        exp_v = breakdown_exp / breakdown_voltage
+        grad_i_brk = brk_fctr * (brk_pwr + diode_voltage * exp_v * brk_pwr_1)
+        grad2i_brk = (brk_fctr * exp_v
+                      * (2 * brk_pwr_1 + diode_voltage
+                         * (breakdown_exp + 1) / breakdown_voltage
+                         * brk_pwr_2))
         grad_i = -g_diode - g_sh - grad_i_recomb - grad_i_brk  # di/dvd
         grad_v = 1.0 - grad_i * resistance_series  # dv/dvd
         # dp/dv = d(iv)/dv = v * di/dv + i
-- 
2.43.0


From 1eca5b8ebf9feebf6c04156f8b0013bff95013ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 20/58] fix: calcparams_desoto raised ZeroDivisionError for
 scalar zero irradiance

---
 pvlib/pvsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index 02b16ed..c6933ce 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -1743,7 +1743,7 @@ def calcparams_desoto(effective_irradiance, temp_cell,
     # spectral_modifier = 1.0.
     # use errstate to silence divide by warning
     with np.errstate(divide='ignore'):
-        Rsh = R_sh_ref * (irrad_ref / effective_irradiance)
+        Rsh = R_sh_ref * np.divide(irrad_ref, effective_irradiance)
 
     Rs = R_s
 
-- 
2.43.0


From b9cb23f57c060af46f7181c87459d92340e0c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 21/58] fix: sapm v_mp and p_mp were NaN at zero irradiance for
 modules with negative C2

---
 pvlib/pvsystem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index c6933ce..ee60273 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -2383,7 +2383,10 @@ def sapm(effective_irradiance, temp_cell, module, *, temperature_ref=25,
         module['Voco'] + cells_in_series * delta * logEe +
         Bvoco*(temp_cell - temperature_ref)))
 
-    out['v_mp'] = np.maximum(0, (
+    # at zero irradiance the logarithmic terms may be infinite with opposite
+    # signs, so evaluate them at Ee=1 there and set v_mp to zero afterwards
+    logEe = np.where(Ee_eq_0, 0., logEe)
+    out['v_mp'] = np.maximum(0, ~Ee_eq_0 * (
         module['Vmpo'] +
         module['C2'] * cells_in_series * delta * logEe +
         module['C3'] * cells_in_series * ((delta * logEe) ** 2) +
-- 
2.43.0


From b01f43969ca98efb9f4bae6002ed1bb147e59375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 22/58] fix: sapm lost the index of a Series irradiance with
 scalar temperature

---
 pvlib/pvsystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/pvsystem.py b/pvlib/pvsystem.py
index ee60273..1a88b01 100644
--- a/pvlib/pvsystem.py
+++ b/pvlib/pvsystem.py
@@ -2404,8 +2404,9 @@ def sapm(effective_irradiance, temp_cell, module, *, temperature_ref=25,
             module['IXXO'] * (module['C6']*Ee + module['C7']*(Ee**2)) *
             (1 + module['Aimp']*(temp_cell - temperature_ref)))
 
-    if isinstance(out['i_sc'], pd.Series):
-        out = pd.DataFrame(out)
+    index = tools.get_pandas_index(temp_cell, effective_irradiance)
+    if index is not None:
+        out = pd.DataFrame(out, index=index)
 
     return out
 
-- 
2.43.0


From da59ab7d727c7ce095dfb77ad5ac52f35292a400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 23/58] fix: inverter.sandia raised KeyError for Series voltage
 with scalar power

---
 pvlib/inverter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pvlib/inverter.py b/pvlib/inverter.py
index 622fb9b..3a85690 100644
--- a/pvlib/inverter.py
+++ b/pvlib/inverter.py
@@ -14,6 +14,8 @@ import numpy as np
 import pandas as pd
 from numpy.polynomial.polynomial import polyfit  # different than np.polyfit
 
+from pvlib import tools
+
 
 def _sandia_eff(v_dc, p_dc, inverter):
     r'''
@@ -42,11 +44,11 @@ def _sandia_limits(power_ac, p_dc, Paco, Pnt, Pso):
     power_ac = np.minimum(Paco, power_ac)
     min_ac_power = -1.0 * abs(Pnt)
     below_limit = p_dc < Pso
-    try:
-        power_ac[below_limit] = min_ac_power
-    except TypeError:  # power_ac is a float
-        if below_limit:
-            power_ac = min_ac_power
+    index = tools.get_pandas_index(power_ac)
+    # [()] turns a 0-d array into a scalar
+    power_ac = np.where(below_limit, min_ac_power, power_ac)[()]
+    if index is not None:
+        power_ac = pd.Series(power_ac, index=index)
     return power_ac
 
 
-- 
2.43.0


From 2bec52d3ea7286c6fa8ddc1140fda2e28ab3a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 24/58] fix: inverter.sandia_multi raised ZeroDivisionError for
 scalar zero power

---
 pvlib/inverter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvlib/inverter.py b/pvlib/inverter.py
index 3a85690..9a46271 100644
--- a/pvlib/inverter.py
+++ b/pvlib/inverter.py
@@ -197,7 +197,10 @@ def sandia_multi(v_dc, p_dc, inverter):
     power_ac = 0. * power_dc
 
     for vdc, pdc in zip(v_dc, p_dc):
-        power_ac += pdc / power_dc * _sandia_eff(vdc, power_dc, inverter)
+        # zero total power is set to night tare below
+        with np.errstate(invalid='ignore', divide='ignore'):
+            share = np.divide(pdc, power_dc)
+        power_ac += share * _sandia_eff(vdc, power_dc, inverter)
 
     return _sandia_limits(power_ac, power_dc, inverter['Paco'],
                           inverter['Pnt'], inverter['Pso'])
-- 
2.43.0


From acb037332be1b4e1a675efcf586ad08ce21a3454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 25/58] fix: inverter.adr failed for mixed scalar and array
 input and zero scalar voltage

---
 pvlib/inverter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pvlib/inverter.py b/pvlib/inverter.py
index 9a46271..e942175 100644
--- a/pvlib/inverter.py
+++ b/pvlib/inverter.py
@@ -301,8 +301,7 @@ def adr(v_dc, p_dc, inverter, vtol=0.10):
     v_lim_upper = float(np.nanmax([v_max, vdc_max, mppt_hi]) * (1 + vtol))
     v_lim_lower = float(np.nanmax([v_min, mppt_low]) * (1 - vtol))
 
-    pdc = p_dc / p_nom
-    vdc = v_dc / v_nom
+    pdc, vdc = np.broadcast_arrays(p_dc / p_nom, v_dc / v_nom)
     # zero voltage will lead to division by zero, but since power is
     # set to night time value later, these errors can be safely ignored
     with np.errstate(invalid='ignore', divide='ignore'):
@@ -332,8 +331,9 @@ def adr(v_dc, p_dc, inverter, vtol=0.10):
     # set max ac output
     power_ac = np.minimum(power_ac, pac_max)
 
-    if isinstance(p_dc, pd.Series):
-        power_ac = pd.Series(power_ac, index=pdc.index)
+    index = tools.get_pandas_index(p_dc, v_dc)
+    if index is not None:
+        power_ac = pd.Series(power_ac, index=index)
 
     return power_ac
 
-- 
2.43.0


From ca1769ab7fb07ce796885a4d3b14f07b2ee436b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 26/58] fix: iam.physical returned NaN behind the plane at
 negative angles for an index of one

---
 pvlib/iam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iam.py b/pvlib/iam.py
index 9ba981c..e002d15 100644
--- a/pvlib/iam.py
+++ b/pvlib/iam.py
@@ -227,7 +227,7 @@ def physical(aoi, n=1.526, K=4.0, L=0.002, *, n_ar=None):
     # for light coming from behind the plane, none can enter the module
     # when n2 > 1, this is already the case
     if np.isclose(n2, 1).any():
-        iam = np.where(aoi >= 90, 0, iam)
+        iam = np.where(np.abs(aoi) >= 90, 0, iam)
         if isinstance(aoi, pd.Series):
             iam = pd.Series(iam, index=aoi.index)
 
-- 
2.43.0


From 474af9b78107e33135ce39fcea28394bd4caba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:53 +0000
Subject: [PATCH 27/58] fix: martin_ruiz_diffuse returned NaN for tilts within
 1e-6 degrees of horizontal

---
 pvlib/iam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvlib/iam.py b/pvlib/iam.py
index e002d15..afbad68 100644
--- a/pvlib/iam.py
+++ b/pvlib/iam.py
@@ -392,8 +392,10 @@ def martin_ruiz_diffuse(surface_tilt, a_r=0.16, c1=0.4244, c2=None):
     # avoid undefined results for horizontal or upside-down surfaces
     zeroang = 1e-06
 
-    surface_tilt = np.where(surface_tilt == 0, zeroang, surface_tilt)
-    surface_tilt = np.where(surface_tilt == 180, 180 - zeroang, surface_tilt)
+    surface_tilt = np.where(np.abs(surface_tilt) < zeroang,
+                            zeroang, surface_tilt)
+    surface_tilt = np.where(np.abs(180 - surface_tilt) < zeroang,
+                            180 - zeroang, surface_tilt)
 
     if c2 is None:
         # This equation is from [3] Sect. 7.2
-- 
2.43.0


From f59489f3edbdfdea4772137f8a47861d97d2d02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 28/58] fix: schlick_diffuse lost precision at horizontal and
 was infinite for downward surfaces

---
 pvlib/iam.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pvlib/iam.py b/pvlib/iam.py
index afbad68..a60f428 100644
--- a/pvlib/iam.py
+++ b/pvlib/iam.py
@@ -943,17 +943,26 @@ def schlick_diffuse(surface_tilt):
     # relative transmittance of sky diffuse radiation by PV cover:
     cosB = cosd(surface_tilt)
     sinB = sind(surface_tilt)
-    cuk = (2 / (np.pi * (1 + cosB))) * (
-        (30/7)*np.pi - (160/21)*np.radians(surface_tilt) - (10/3)*np.pi*cosB
-        + (160/21)*cosB*sinB - (5/3)*np.pi*cosB*sinB**2 + (20/7)*cosB*sinB**3
-        - (5/16)*np.pi*cosB*sinB**4 + (16/105)*cosB*sinB**5
-    )  # Eq 4 in [2]
+    with np.errstate(divide='ignore', invalid='ignore'):
+        cuk = (2 / (np.pi * (1 + cosB))) * (
+            (30/7)*np.pi - (160/21)*np.radians(surface_tilt)
+            - (10/3)*np.pi*cosB + (160/21)*cosB*sinB
+            - (5/3)*np.pi*cosB*sinB**2 + (20/7)*cosB*sinB**3
+            - (5/16)*np.pi*cosB*sinB**4 + (16/105)*cosB*sinB**5
+        )  # Eq 4 in [2]
+
+    # where almost nothing of the sky (or ground) is seen, the equations
+    # lose all precision. Use their limit instead.
+    def grazing(angle):
+        return 80 / (9 * np.pi) * np.radians(angle)
+
+    cuk = np.where(surface_tilt > 180 - 0.01, grazing(180 - surface_tilt), cuk)
 
     # relative transmittance of ground-reflected radiation by PV cover:
     with np.errstate(divide='ignore', invalid='ignore'):  # Eq 6 in [2]
         cug = 40 / (21 * (1 - cosB)) - (1 + cosB) / (1 - cosB) * cuk
 
-    cug = np.where(surface_tilt < 1e-6, 0, cug)
+    cug = np.where(surface_tilt < 0.01, grazing(surface_tilt), cug)
 
     # respect input types:
     if np.isscalar(surface_tilt):
-- 
2.43.0


From 58e09d3f478e26df0b6c8a5d2fd540664e950d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 29/58] fix: marion_integrate left out an increment at the edge
 of the region for some num

---
 pvlib/iam.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvlib/iam.py b/pvlib/iam.py
index a60f428..0dc8701 100644
--- a/pvlib/iam.py
+++ b/pvlib/iam.py
@@ -736,6 +736,7 @@ def marion_integrate(function, surface_tilt, region, num=None):
         # convert Series to np array for broadcasting later
         beta = beta.values
     ai = np.pi/num  # angular increment
+    tol = 1e-6 * ai  # allow for rounding at the edges of the region
 
     phi_range = np.linspace(0, np.pi, num, endpoint=False)
     psi_range = np.linspace(0, 2*np.pi, 2*num, endpoint=False)
@@ -743,13 +744,13 @@ def marion_integrate(function, surface_tilt, region, num=None):
     # the pseudocode in [1] do these checks at the end, but it's
     # faster to do this criteria check up front instead of later.
     if region == 'sky':
-        mask = phi_range + ai <= np.pi/2
+        mask = phi_range + ai <= np.pi/2 + tol
     elif region == 'horizon':
         lo = 89.5 * np.pi/180
         hi = np.pi/2
-        mask = (lo <= phi_range) & (phi_range + ai <= hi)
+        mask = (lo <= phi_range + tol) & (phi_range + ai <= hi + tol)
     elif region == 'ground':
-        mask = (phi_range >= np.pi/2)
+        mask = (phi_range >= np.pi/2 - tol)
     else:
         raise ValueError(f'Invalid region: {region}')
     phi_range = phi_range[mask]
-- 
2.43.0


From 223a383096ce527b5bf418172a84b7759b37f948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:17 +0000
Subject: [PATCH 30/58] fix: sampling intervals of a day and more or below a
 second were misread (prilliman, detect_clearsky)

---
 pvlib/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/tools.py b/pvlib/tools.py
index 1d9db70..44e0877 100644
--- a/pvlib/tools.py
+++ b/pvlib/tools.py
@@ -433,7 +433,7 @@ def _get_sample_intervals(times, win_length):
     # determine if we can proceed
     if times.inferred_freq and len(np.unique(deltas)) == 1:
         sample_interval = times[1] - times[0]
-        sample_interval = sample_interval.seconds / 60  # in minutes
+        sample_interval = sample_interval.total_seconds() / 60  # in minutes
         samples_per_window = int(win_length / sample_interval)
         return sample_interval, samples_per_window
     else:
-- 
2.43.0


From d957414014ce7e92d2fb542469aedcdbd4c8ddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 31/58] fix: noct_sam was NaN (or raised ZeroDivisionError)
 without irradiance when effective_irradiance is given

---
 pvlib/temperature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvlib/temperature.py b/pvlib/temperature.py
index 55222c0..81139dc 100644
--- a/pvlib/temperature.py
+++ b/pvlib/temperature.py
@@ -1012,7 +1012,9 @@ def noct_sam(poa_global, temp_air, wind_speed, noct, module_efficiency,
     if effective_irradiance is None:
         irr_ratio = 1.
     else:
-        irr_ratio = effective_irradiance / poa_global
+        # without irradiance there is no heating and the ratio is irrelevant
+        dark = poa_global == 0
+        irr_ratio = (effective_irradiance + dark) / (poa_global + dark)
 
     if array_height == 1:
         wind_adj = 0.51 * wind_speed
-- 
2.43.0


From baede7aaf395da5a14a46efcd81fa0603b59c65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:44 +0000
Subject: [PATCH 32/58] fix: sr_to_qe and qe_to_sr failed for a DataFrame or
 divided its columns instead of its rows

---
 pvlib/spectrum/response.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pvlib/spectrum/response.py b/pvlib/spectrum/response.py
index 906c156..4fed746 100644
--- a/pvlib/spectrum/response.py
+++ b/pvlib/spectrum/response.py
@@ -167,9 +167,12 @@ def sr_to_qe(sr, wavelength=None, normalize=False):
                 "'sr' must have an '.index' attribute"
                 + " or 'wavelength' must be provided"
             )
+    if isinstance(sr, pd.DataFrame):  # wavelengths are in the index
+        sr_by_wavelength = sr.div(wavelength, axis=0)
+    else:
+        sr_by_wavelength = sr / wavelength
     quantum_efficiency = (
-        sr
-        / wavelength
+        sr_by_wavelength
         * _PLANCK_BY_LIGHT_SPEED_OVER_ELEMENTAL_CHARGE_BY_BILLION
     )
 
@@ -266,9 +269,12 @@ def qe_to_sr(qe, wavelength=None, normalize=False):
                 "'qe' must have an '.index' attribute"
                 + " or 'wavelength' must be provided"
             )
+    if isinstance(qe, pd.DataFrame):  # wavelengths are in the index
+        qe_by_wavelength = qe.mul(wavelength, axis=0)
+    else:
+        qe_by_wavelength = qe * wavelength
     spectral_responsivity = (
-        qe
-        * wavelength
+        qe_by_wavelength
         / _PLANCK_BY_LIGHT_SPEED_OVER_ELEMENTAL_CHARGE_BY_BILLION
     )
 
-- 
2.43.0


From abbbf7c33a392b9005742a8c19ad40ebb0a8a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:44 +0000
Subject: [PATCH 33/58] fix: changing the wavelengths returned by spectrl2
 changed later results

---
 pvlib/spectrum/spectrl2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvlib/spectrum/spectrl2.py b/pvlib/spectrum/spectrl2.py
index af531ff..cee99e9 100644
--- a/pvlib/spectrum/spectrl2.py
+++ b/pvlib/spectrum/spectrl2.py
@@ -384,7 +384,9 @@ def spectrl2(apparent_zenith, aoi, surface_tilt, ground_albedo,
     Iground = pvlib.irradiance.get_ground_diffuse(surface_tilt, ghi, albedo=rg)
 
     Itilt = Ibeam + Isky + Iground
-    wavelength_1d = wavelength.reshape(-1)  # only needs 1 dimension
+    # only needs 1 dimension; a copy, so that changing the result does not
+    # change the coefficients
+    wavelength_1d = wavelength.flatten()
     return {
         'wavelength': wavelength_1d,
         'dni_extra': spectrum_et_adj,
-- 
2.43.0


From 6bbb0ff8e2e0fbc6d8dafdb9c46bf45321caed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 34/58] fix: fully_covered_nrel failed for daily data with
 pandas 3

---
 pvlib/snow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/snow.py b/pvlib/snow.py
index b78a93a..9a47228 100644
--- a/pvlib/snow.py
+++ b/pvlib/snow.py
@@ -60,8 +60,8 @@ def fully_covered_nrel(snowfall, snow_depth=None, threshold_snowfall=1.,
     # otherwise the first snowfall value is ignored
     freq = pd.infer_freq(snowfall.index)
     if freq is not None:
-        timedelta = pd.tseries.frequencies.to_offset(freq) / pd.Timedelta('1h')
-        hourly_snow_rate.iloc[0] = snowfall.iloc[0] / timedelta
+        # the first time period is as long as the one that follows
+        hourly_snow_rate.iloc[0] = snowfall.iloc[0] / timestep.iloc[1]
     else:  # can't infer frequency from index
         hourly_snow_rate.iloc[0] = 0  # replaces NaN
     covered = (hourly_snow_rate > threshold_snowfall)
-- 
2.43.0


From 0f03009eee693a775943cef68ed7878b238aa2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 35/58] fix: wvm was NaN for a single position

---
 pvlib/scaling.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/pvlib/scaling.py b/pvlib/scaling.py
index 693d9f6..dc10e27 100644
--- a/pvlib/scaling.py
+++ b/pvlib/scaling.py
@@ -6,7 +6,6 @@ or other variables to account for temporal or spatial characteristics.
 import numpy as np
 import pandas as pd
 
-import scipy.optimize
 from scipy.spatial.distance import pdist
 
 
@@ -129,14 +128,8 @@ def _compute_vr(positions, cloud_speed, tmscales):
     pos = np.array(positions)
     dist = pdist(pos, 'euclidean')
 
-    # Find effective length of position vector, 'dist' is full pairwise
-    n_pairs = len(dist)
-
-    def fn(x):
-        return np.abs((x ** 2 - x) / 2 - n_pairs)
-
-    n_dist = np.round(scipy.optimize.fmin(fn, np.sqrt(n_pairs), disp=False))
-    n_dist = n_dist.item()
+    # Number of positions, 'dist' is full pairwise
+    n_dist = len(pos)
     # Compute VR
     A = cloud_speed / 2  # Resultant fit for A from [2]
     vr = np.zeros(tmscales.shape)
-- 
2.43.0


From 3724bdf3a5dc635575fba51db48e163d923b8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:08 +0000
Subject: [PATCH 36/58] fix: gti_dirint warned about points that converged in
 the last iteration

---
 pvlib/irradiance.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index 38f27ec..94d5ef5 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -2650,12 +2650,15 @@ def _gti_dirint_lt_90(poa_global, aoi, aoi_lt_90, solar_zenith, solar_azimuth,
         poa_global_i = np.maximum(1.0, poa_global_i - coeff * diff)
     else:
         # we are here because we ran out of coeffs to loop over and
-        # therefore we have exceeded max_iterations
-        failed_points = best_diff[aoi_lt_90][~best_diff_lte_1_lt_90]
-        warnings.warn(
-            ('%s points failed to converge after %s iterations. best_diff:\n%s'
-             % (len(failed_points), max_iterations, failed_points)),
-            RuntimeWarning)
+        # therefore we have exceeded max_iterations. best_diff may have
+        # improved in the last iteration
+        failed_points = best_diff[aoi_lt_90 & ~(best_diff <= 1)]
+        if len(failed_points) > 0:
+            warnings.warn(
+                ('%s points failed to converge after %s iterations. '
+                 'best_diff:\n%s'
+                 % (len(failed_points), max_iterations, failed_points)),
+                RuntimeWarning)
 
     # return the best data, whether or not the solution converged
     return best_ghi, best_dni, best_dhi, best_kt_prime
-- 
2.43.0


From d59793b3411baf9a63455ce94f48aa85521eaf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 37/58] fix: ModelChain accepted substrings of 'adr' as AC
 model names

---
 pvlib/modelchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index cf7a5bf..355b0d8 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -720,7 +720,7 @@ class ModelChain:
             model = model.lower()
             if model == 'sandia':
                 self._ac_model = self.sandia_inverter
-            elif model in 'adr':
+            elif model == 'adr':
                 self._ac_model = self.adr_inverter
             elif model == 'pvwatts':
                 self._ac_model = self.pvwatts_inverter
-- 
2.43.0


From 061401dced01069705048ed30206d8ba6e1933a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 38/58] fix: ModelChain with an ADR inverter failed on weather
 in a list

---
 pvlib/modelchain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 355b0d8..c92b506 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -759,8 +759,8 @@ class ModelChain:
     def adr_inverter(self):
         self.results.ac = self.system.get_ac(
             'adr',
-            self.results.dc['p_mp'],
-            v_dc=self.results.dc['v_mp']
+            _tuple_from_dfs(self.results.dc, 'p_mp'),
+            v_dc=_tuple_from_dfs(self.results.dc, 'v_mp')
         )
         return self
 
-- 
2.43.0


From 831c6afd10f5786dd73425d611b045df65ca9f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 39/58] fix: ModelChain applied the PVWatts inverter to
 voltages and currents

---
 pvlib/modelchain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index c92b506..130c39c 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -765,7 +765,11 @@ class ModelChain:
         return self
 
     def pvwatts_inverter(self):
-        ac = self.system.get_ac('pvwatts', self.results.dc)
+        dc = self.results.dc
+        if isinstance(dc[0] if isinstance(dc, tuple) else dc, pd.DataFrame):
+            # not the PVWatts DC model, which provides only the power
+            dc = _tuple_from_dfs(dc, 'p_mp')
+        ac = self.system.get_ac('pvwatts', dc)
         self.results.ac = ac.fillna(0)
         return self
 
-- 
2.43.0


From c75a21bcb4831aa85cc8cad29d3f9b5e3de82f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 40/58] fix: ModelChain ignored dc_model='singlediode'

---
 pvlib/modelchain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 130c39c..07ad410 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -611,6 +611,8 @@ class ModelChain:
                     self._dc_model = self.pvsyst
                 elif model == 'pvwatts':
                     self._dc_model = self.pvwatts_dc
+                else:
+                    raise ValueError(model + ' is not a valid DC power model')
             else:
                 raise ValueError(model + ' is not a valid DC power model')
         else:
-- 
2.43.0


From 718cc6485ddd6d36186766f60c56f60c05aa24e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 41/58] fix: ModelChain.complete_irradiance failed after a run
 with a list

---
 pvlib/modelchain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvlib/modelchain.py b/pvlib/modelchain.py
index 07ad410..9b19ae0 100644
--- a/pvlib/modelchain.py
+++ b/pvlib/modelchain.py
@@ -1182,6 +1182,7 @@ class ModelChain:
         self._check_multiple_input(weather)
         # Don't use ModelChain._assign_weather() here because it adds
         # temperature and wind-speed columns which we do not need here.
+        self._configure_results(per_array_data=isinstance(weather, tuple))
         self.results.weather = _copy(weather)
         self._assign_times()
         self.results.solar_position = self.location.get_solarposition(
-- 
2.43.0


From c35279bf61e5e49262e901f004de99b8ce7a8267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:09 +0000
Subject: [PATCH 42/58] fix: ModelChain with pyephem failed on weather with air
 temperature

---
 pvlib/solarposition.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index ec86575..8dd0e5a 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -633,9 +633,9 @@ def pyephem(time, latitude, longitude, altitude=0., pressure=101325.,
         negative to west.
     altitude : float, default 0.0
         Height above sea level in meters. [m]
-    pressure : int or float, optional, default 101325.0
+    pressure : numeric, optional, default 101325.0
         air pressure in Pascals.
-    temperature : int or float, optional, default 12.0
+    temperature : numeric, optional, default 12.0
         air temperature in degrees C.
     horizon : string, optional, default '+0:00'
         arc degrees:arc minutes from geometrical horizon for sunrise and
@@ -668,17 +668,23 @@ def pyephem(time, latitude, longitude, altitude=0., pressure=101325.,
 
     sun_coords = pd.DataFrame(index=time)
 
-    obs, sun = _ephem_setup(latitude, longitude, altitude,
-                            pressure, temperature, horizon)
+    # pressure and temperature may be given for each time
+    pressure = np.broadcast_to(pressure, len(time_utc))
+    temperature = np.broadcast_to(temperature, len(time_utc))
+    obs, sun = _ephem_setup(latitude, longitude, altitude, 0., 0., horizon)
 
     # make and fill lists of the sun's altitude and azimuth
     # this is the pressure and temperature corrected apparent alt/az.
     alts = []
     azis = []
-    for thetime in time_utc:
+    for thetime, pres, temp in zip(time_utc, pressure, temperature):
+        # ephem does not return if pressure or temperature are nan
+        known = not (np.isnan(pres) or np.isnan(temp))
         obs.date = ephem.Date(thetime)
+        obs.pressure = pres / 100. if known else 0.  # convert to mBar
+        obs.temp = temp if known else 0.
         sun.compute(obs)
-        alts.append(sun.alt)
+        alts.append(sun.alt if known else np.nan)
         azis.append(sun.az)
 
     sun_coords['apparent_elevation'] = alts
-- 
2.43.0


From 21e8773568a227f552ff4c9a24d53ebdfb4bb0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 43/58] fix: inferred temperature model parameters were shared
 between arrays

An Array that infers its temperature_model_parameters got the library's
own TEMPERATURE_MODEL_PARAMETERS entry, so changing one array's value
changed every other array and system.
---
 pvlib/temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/temperature.py b/pvlib/temperature.py
index 81139dc..44c138a 100644
--- a/pvlib/temperature.py
+++ b/pvlib/temperature.py
@@ -45,7 +45,7 @@ Retrieve the open rack glass-polymer configuration for SAPM::
 def _temperature_model_params(model, parameter_set):
     try:
         params = TEMPERATURE_MODEL_PARAMETERS[model]
-        return params[parameter_set]
+        return params[parameter_set].copy()
     except KeyError:
         msg = ('{} is not a named set of parameters for the {} cell'
                ' temperature model.'
-- 
2.43.0


From 17f10109ef4508075323fdd6e7175d37b616ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 44/58] fix: read_tmy2 column LastSnowfallUncertainty had its
 name cut off

---
 pvlib/iotools/tmy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iotools/tmy.py b/pvlib/iotools/tmy.py
index 28d20ff..9601fe2 100644
--- a/pvlib/iotools/tmy.py
+++ b/pvlib/iotools/tmy.py
@@ -368,7 +368,7 @@ def read_tmy2(filename):
     """  # noqa: E501
     # paste in the column info as one long line
     string = '%2d%2d%2d%2d%4d%4d%4d%1s%1d%4d%1s%1d%4d%1s%1d%4d%1s%1d%4d%1s%1d%4d%1s%1d%4d%1s%1d%2d%1s%1d%2d%1s%1d%4d%1s%1d%4d%1s%1d%3d%1s%1d%4d%1s%1d%3d%1s%1d%3d%1s%1d%4d%1s%1d%5d%1s%1d%10d%3d%1s%1d%3d%1s%1d%3d%1s%1d%2d%1s%1d'  # noqa: E501
-    columns = 'year,month,day,hour,ETR,ETRN,GHI,GHISource,GHIUncertainty,DNI,DNISource,DNIUncertainty,DHI,DHISource,DHIUncertainty,GHillum,GHillumSource,GHillumUncertainty,DNillum,DNillumSource,DNillumUncertainty,DHillum,DHillumSource,DHillumUncertainty,Zenithlum,ZenithlumSource,ZenithlumUncertainty,TotCld,TotCldSource,TotCldUncertainty,OpqCld,OpqCldSource,OpqCldUncertainty,DryBulb,DryBulbSource,DryBulbUncertainty,DewPoint,DewPointSource,DewPointUncertainty,RHum,RHumSource,RHumUncertainty,Pressure,PressureSource,PressureUncertainty,Wdir,WdirSource,WdirUncertainty,Wspd,WspdSource,WspdUncertainty,Hvis,HvisSource,HvisUncertainty,CeilHgt,CeilHgtSource,CeilHgtUncertainty,PresentWeather,Pwat,PwatSource,PwatUncertainty,AOD,AODSource,AODUncertainty,SnowDepth,SnowDepthSource,SnowDepthUncertainty,LastSnowfall,LastSnowfallSource,LastSnowfallUncertaint'  # noqa: E501
+    columns = 'year,month,day,hour,ETR,ETRN,GHI,GHISource,GHIUncertainty,DNI,DNISource,DNIUncertainty,DHI,DHISource,DHIUncertainty,GHillum,GHillumSource,GHillumUncertainty,DNillum,DNillumSource,DNillumUncertainty,DHillum,DHillumSource,DHillumUncertainty,Zenithlum,ZenithlumSource,ZenithlumUncertainty,TotCld,TotCldSource,TotCldUncertainty,OpqCld,OpqCldSource,OpqCldUncertainty,DryBulb,DryBulbSource,DryBulbUncertainty,DewPoint,DewPointSource,DewPointUncertainty,RHum,RHumSource,RHumUncertainty,Pressure,PressureSource,PressureUncertainty,Wdir,WdirSource,WdirUncertainty,Wspd,WspdSource,WspdUncertainty,Hvis,HvisSource,HvisUncertainty,CeilHgt,CeilHgtSource,CeilHgtUncertainty,PresentWeather,Pwat,PwatSource,PwatUncertainty,AOD,AODSource,AODUncertainty,SnowDepth,SnowDepthSource,SnowDepthUncertainty,LastSnowfall,LastSnowfallSource,LastSnowfallUncertainty'  # noqa: E501
     hdr_columns = 'WBAN,City,State,TZ,latitude,longitude,altitude'
 
     tmy2, tmy2_meta = _read_tmy2(string, columns, hdr_columns, str(filename))
-- 
2.43.0


From e0fb8a243fa0a687c56b6986f98754e375be0af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 45/58] fix: read_srml mislabeled a data element equal to the
 file's year

In files for 2010 to 2019 the direct normal element 201x and the year
column may share a label, and pandas made the element '201x.1', which was
returned as dni_x.1.
---
 pvlib/iotools/srml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvlib/iotools/srml.py b/pvlib/iotools/srml.py
index c9b630e..f8275dc 100644
--- a/pvlib/iotools/srml.py
+++ b/pvlib/iotools/srml.py
@@ -66,6 +66,11 @@ def read_srml(filename, map_variables=True):
     data = _format_index(tsv_data)
     # Drop day of year and time columns
     data = data[data.columns[2:]]
+    # The second column is labeled with the year. When that year is also a
+    # data element number in the file (e.g. 2010), pandas has renamed the
+    # data column, so restore its label.
+    year = tsv_data.columns[1]
+    data = data.rename(columns={f'{year}.1': year})
 
     if map_variables:
         data = data.rename(columns=_map_columns)
-- 
2.43.0


From a5f016adea3b01d22bfa440ba87227b2310b477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 46/58] fix: read_solrad used the Madison format for any path
 containing msn

---
 pvlib/iotools/solrad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/iotools/solrad.py b/pvlib/iotools/solrad.py
index f4d446f..b44217d 100644
--- a/pvlib/iotools/solrad.py
+++ b/pvlib/iotools/solrad.py
@@ -4,6 +4,7 @@ import pandas as pd
 import warnings
 import requests
 import io
+import os
 
 # pvlib conventions
 BASE_HEADERS = (
@@ -96,7 +97,7 @@ def read_solrad(filename):
        Program. Bull. Amer. Meteor. Soc., 77, 2857-2864.
        :doi:`10.1175/1520-0477(1996)077<2857:TNISIS>2.0.CO;2`
     """
-    if 'msn' in str(filename):
+    if 'msn' in os.path.basename(str(filename)):
         names = MADISON_HEADERS
         widths = MADISON_WIDTHS
         dtypes = MADISON_DTYPES
-- 
2.43.0


From 324335f73415e92a520948f609737ff770aa0003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 47/58] fix: read_crn failed on lines of null characters
 instead of dropping them

---
 pvlib/iotools/crn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvlib/iotools/crn.py b/pvlib/iotools/crn.py
index 90e1d6d..568a877 100644
--- a/pvlib/iotools/crn.py
+++ b/pvlib/iotools/crn.py
@@ -116,6 +116,11 @@ def read_crn(filename, map_variables=True):
     data = pd.read_fwf(filename, header=None, names=HEADERS, widths=WIDTHS,
                        dtype=str)
 
+    # drop lines with null characters
+    has_null = data.apply(
+        lambda col: col.astype(str).str.contains('\x00', regex=False))
+    data = data[~has_null.fillna(False).astype(bool).any(axis=1)]
+
     # drop empty (bad) lines
     data = data.dropna(axis=0, how='all')
 
-- 
2.43.0


From 98cd55ee7cfbceb27e0884ce73e4732083ab04a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:25 +0000
Subject: [PATCH 48/58] fix: meteonorm: convert time zone aware start/end to
 UTC

---
 pvlib/iotools/meteonorm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvlib/iotools/meteonorm.py b/pvlib/iotools/meteonorm.py
index 61bf72b..2185f00 100644
--- a/pvlib/iotools/meteonorm.py
+++ b/pvlib/iotools/meteonorm.py
@@ -546,6 +546,7 @@ def _get_meteonorm(
         try:
             start = pd.Timestamp(start)
             start = start.tz_localize("UTC") if start.tzinfo is None else start
+            start = start.tz_convert("UTC")
             start = start.strftime("%Y-%m-%dT%H:%M:%SZ")
         except (ValueError, DateParseError):
             pass
@@ -553,6 +554,7 @@ def _get_meteonorm(
         try:
             end = pd.Timestamp(end)
             end = end.tz_localize("UTC") if end.tzinfo is None else end
+            end = end.tz_convert("UTC")
             end = end.strftime("%Y-%m-%dT%H:%M:%SZ")
         except (ValueError, DateParseError):
             pass
-- 
2.43.0


From ad50287be2cbf6afdde2838d8754fc0b460600aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 49/58] fix: get_meteonorm_tmy: send the albedo parameter

---
 pvlib/iotools/meteonorm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvlib/iotools/meteonorm.py b/pvlib/iotools/meteonorm.py
index 2185f00..60d20c8 100644
--- a/pvlib/iotools/meteonorm.py
+++ b/pvlib/iotools/meteonorm.py
@@ -505,6 +505,7 @@ def get_meteonorm_tmy(
                         addendum=msg)
     additional_params = {
         "situation": terrain_situation,
+        "albedo": albedo,
         "turbidity": turbidity,
         "clear_sky_radiation_model": clear_sky_radiation_model,
         "random_seed": random_seed,
-- 
2.43.0


From 0413be1d45a2589c085df9f1494bb2c337ba61ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 50/58] fix: get_nasa_power: accept a single parameter as a
 string

---
 pvlib/iotools/nasa_power.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvlib/iotools/nasa_power.py b/pvlib/iotools/nasa_power.py
index 7ab3829..41b86a6 100644
--- a/pvlib/iotools/nasa_power.py
+++ b/pvlib/iotools/nasa_power.py
@@ -118,6 +118,9 @@ def get_nasa_power(latitude, longitude, start, end,
     start = pd.Timestamp(start)
     end = pd.Timestamp(end)
 
+    # allow specifying a single parameter as string
+    if isinstance(parameters, str):
+        parameters = [parameters]
     # allow the use of pvlib parameter names
     parameter_dict = {v: k for k, v in VARIABLE_MAP.items()}
     parameters = [parameter_dict.get(p, p) for p in parameters]
-- 
2.43.0


From fb89ebe70c3141ad18d0e4f85f66715f7efcc5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 51/58] fix: get_solargis: missing values as NaN, also in GTIc

---
 pvlib/iotools/solargis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvlib/iotools/solargis.py b/pvlib/iotools/solargis.py
index 375c7ed..c02226f 100644
--- a/pvlib/iotools/solargis.py
+++ b/pvlib/iotools/solargis.py
@@ -1,5 +1,6 @@
 """Functions to retrieve and parse irradiance data from Solargis."""
 
+import numpy as np
 import pandas as pd
 import requests
 from dataclasses import dataclass
@@ -59,8 +60,8 @@ METADATA_FIELDS = [
 
 
 # Variables that use "-9" as nan values
-NA_9_COLUMNS = ['GHI', 'GHIc', 'DNI', 'DNIc', 'DIF', 'GTI', 'GIc', 'KT', 'PAR',
-                'PREC', 'PWAT', 'SDWE', 'SFWE']
+NA_9_COLUMNS = ['GHI', 'GHIc', 'DNI', 'DNIc', 'DIF', 'GTI', 'GTIc', 'KT',
+                'PAR', 'PREC', 'PWAT', 'SDWE', 'SFWE']
 
 
 def get_solargis(latitude, longitude, start, end, variables, api_key,
@@ -198,7 +199,7 @@ def get_solargis(latitude, longitude, start, end, variables, api_key,
     # Replace "-9" with nan values for specific columns
     for variable in data.columns:
         if variable in NA_9_COLUMNS:
-            data[variable] = data[variable].replace(-9, pd.NA)
+            data[variable] = data[variable].replace(-9, np.nan)
 
     # rename and convert variables
     if map_variables:
-- 
2.43.0


From eab2bceb2e2d1c914608313bebc303b3161fb8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 52/58] fix: get_surfrad: honour map_variables=False

---
 pvlib/iotools/surfrad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iotools/surfrad.py b/pvlib/iotools/surfrad.py
index 948ec5e..4d7bee9 100644
--- a/pvlib/iotools/surfrad.py
+++ b/pvlib/iotools/surfrad.py
@@ -259,7 +259,7 @@ def get_surfrad(station, start, end, map_variables=True,
     for f in filenames:
         try:
             dfi, file_metadata = read_surfrad(url + f,
-                                              map_variables=VARIABLE_MAP)
+                                              map_variables=map_variables)
             dfs.append(dfi)
 
         except urllib.error.HTTPError:
-- 
2.43.0


From 4a1b0d7ecefd99727174a5fc50fa84eb6420f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:11 +0000
Subject: [PATCH 53/58] fix: read_panond: keep values containing an equals sign
 whole

---
 pvlib/iotools/panond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iotools/panond.py b/pvlib/iotools/panond.py
index 2bc8363..da88f13 100644
--- a/pvlib/iotools/panond.py
+++ b/pvlib/iotools/panond.py
@@ -75,7 +75,7 @@ def _parse_panond(fbuf):
         indent_lvl_1 = (len(lines[i]) - len(lines[i].lstrip(' '))) // 2
         indent_lvl_2 = (len(lines[i + 1]) - len(lines[i + 1].lstrip(' '))) // 2
         # Split the line into key/value pair
-        line_data = lines[i].split('=')
+        line_data = lines[i].split('=', 1)
         key = line_data[0].strip()
         # Logical to make sure there is a value to extract
         if len(line_data) > 1:
-- 
2.43.0


From 84c56d8f42f7a6203008fe3ad056da94f552d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:11 +0000
Subject: [PATCH 54/58] fix: inverter.pvwatts: accept scalar pdc with array
 pdc0

---
 pvlib/inverter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/inverter.py b/pvlib/inverter.py
index e942175..fcab6b7 100644
--- a/pvlib/inverter.py
+++ b/pvlib/inverter.py
@@ -401,7 +401,7 @@ def pvwatts(pdc, pdc0, eta_inv_nom=0.96, eta_inv_ref=0.9637):
     zeta = pdc / pdc0
 
     # arrays to help avoid divide by 0 for scalar and array
-    eta = np.zeros_like(pdc, dtype=float)
+    eta = np.zeros_like(zeta, dtype=float)
     pdc_neq_0 = ~np.equal(pdc, 0)
 
     # eta < 0 if zeta < 0.006. power_ac is forced to be >= 0 below. GH 541
-- 
2.43.0


From d6249ee190d255b381dcfcb1d84acc245eff61b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:11 +0000
Subject: [PATCH 55/58] fix: simplified_solis: do not truncate to the integer
 type of the other input

---
 pvlib/clearsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index c17ed47..4ff4055 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -483,9 +483,9 @@ def _calc_taud(w, aod700, p):
         w = np.array([w])
         aod700 = np.array([aod700])
     elif np.isscalar(w):
-        w = np.full_like(aod700, w)
+        w = np.full_like(aod700, w, dtype=float)
     elif np.isscalar(aod700):
-        aod700 = np.full_like(w, aod700)
+        aod700 = np.full_like(w, aod700, dtype=float)
 
     # set up nan-tolerant masks
     aod700_lt_0p05 = np.full_like(aod700, False, dtype='bool')
-- 
2.43.0


From 94e1157666920f078f7aa1e2b87e9b023623dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:11 +0000
Subject: [PATCH 56/58] fix: bishop88 functions with brentq: a NaN affects only
 its own point

---
 pvlib/singlediode.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 12e52a0..ad80523 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -333,11 +333,11 @@ def bishop88_i_from_v(voltage, photocurrent, saturation_current,
         # arguments for possible array input
         def vd_from_brent(voc, v, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
                           breakdown_factor, breakdown_voltage, breakdown_exp):
-            return brentq(fv, 0.0, voc * BRACKET_MARGIN,
-                          args=(v, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
-                                breakdown_factor, breakdown_voltage,
-                                breakdown_exp),
-                          **method_kwargs)
+            return _brentq(fv, voc * BRACKET_MARGIN,
+                           (v, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
+                            breakdown_factor, breakdown_voltage,
+                            breakdown_exp),
+                           method_kwargs)
 
         vd_from_brent_vectorized = np.vectorize(vd_from_brent)
         vd = vd_from_brent_vectorized(xp, voltage, *args)
@@ -506,11 +506,11 @@ def bishop88_v_from_i(current, photocurrent, saturation_current,
         # arguments for possible array input
         def vd_from_brent(voc, i, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
                           breakdown_factor, breakdown_voltage, breakdown_exp):
-            return brentq(fi, 0.0, voc * BRACKET_MARGIN,
-                          args=(i, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
-                                breakdown_factor, breakdown_voltage,
-                                breakdown_exp),
-                          **method_kwargs)
+            return _brentq(fi, voc * BRACKET_MARGIN,
+                           (i, iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
+                            breakdown_factor, breakdown_voltage,
+                            breakdown_exp),
+                           method_kwargs)
 
         vd_from_brent_vectorized = np.vectorize(vd_from_brent)
         vd = vd_from_brent_vectorized(xp, current, *args)
@@ -672,10 +672,10 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
         # break out arguments for numpy.vectorize to handle broadcasting
         vec_fun = np.vectorize(
             lambda voc, iph, isat, rs, rsh, gamma, d2mutau, NsVbi, vbr_a, vbr,
-            vbr_exp: brentq(fmpp, 0.0, voc,
-                            args=(iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
-                                  vbr_a, vbr, vbr_exp),
-                            **method_kwargs)
+            vbr_exp: _brentq(fmpp, voc,
+                             (iph, isat, rs, rsh, gamma, d2mutau, NsVbi,
+                              vbr_a, vbr, vbr_exp),
+                             method_kwargs)
         )
         vd = vec_fun(xp, *args)
     elif method == 'newton':
@@ -725,6 +725,19 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
         return bishop88(vd, *args)
 
 
+def _brentq(func, upper, args, method_kwargs):
+    """
+    Root of ``func(x, *args)`` between 0 and ``upper``.
+
+    scipy's brentq raises an error when it meets a NaN, so that one missing
+    value would prevent the solution of all the other points. Here a missing
+    input gives a missing root instead.
+    """
+    if np.isnan((upper, *args)).any():
+        return (np.nan, None) if method_kwargs.get('full_output') else np.nan
+    return brentq(func, 0.0, upper, args=args, **method_kwargs)
+
+
 def _shape_of_max_size(*args):
     return max(((np.size(a), np.shape(a)) for a in args),
                key=lambda t: t[0])[1]
-- 
2.43.0


From 0e6495e1cce942337d0505f3a7eb520d79f305bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:11 +0000
Subject: [PATCH 57/58] fix: pvfactors_timeseries: convert integer inputs to
 float

Integer solar angles made np.full_like truncate the surface angles and
pvfactors truncate its own intermediate arrays.
---
 pvlib/bifacial/pvfactors.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pvlib/bifacial/pvfactors.py b/pvlib/bifacial/pvfactors.py
index ec6acfc..702ccf8 100644
--- a/pvlib/bifacial/pvfactors.py
+++ b/pvlib/bifacial/pvfactors.py
@@ -89,11 +89,12 @@ def pvfactors_timeseries(
         Bifacial PV and Diffuse Shade on Single-Axis Trackers." 44th IEEE
         Photovoltaic Specialist Conference. 2017.
     """
-    # Convert Series, list, float inputs to numpy arrays
-    solar_azimuth = np.array(solar_azimuth)
-    solar_zenith = np.array(solar_zenith)
-    dni = np.array(dni)
-    dhi = np.array(dhi)
+    # Convert Series, list, float inputs to numpy arrays (of floats: integer
+    # arrays would truncate the surface angles and intermediate results)
+    solar_azimuth = np.array(solar_azimuth, dtype=float)
+    solar_zenith = np.array(solar_zenith, dtype=float)
+    dni = np.array(dni, dtype=float)
+    dhi = np.array(dhi, dtype=float)
     # GH 1127, GH 1332
     surface_tilt = np.full_like(solar_zenith, surface_tilt)
     surface_azimuth = np.full_like(solar_zenith, surface_azimuth)
-- 
2.43.0


From 58b5a7689535e642529030e41ca6af197cb8beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:24 +0000
Subject: [PATCH 58/58] fix: bifacial.utils unshaded ground fraction ignored
 far rows when gcr is near 1

With the arbitrary height of 1, shadows of a sun close to 85 degrees fall
more than max_rows rows away, and the ground is reported as lit.
---
 pvlib/bifacial/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/bifacial/utils.py b/pvlib/bifacial/utils.py
index df10a8e..a123424 100644
--- a/pvlib/bifacial/utils.py
+++ b/pvlib/bifacial/utils.py
@@ -93,8 +93,9 @@ def _unshaded_ground_fraction(tracker_rotation, phi, gcr, height=None,
     """
     if np.isscalar(g0) and g0 == 0 and np.isscalar(g1) and g1 == 1:
         # height and pitch have no effect, so set to arbitrary values so
-        # that they can be optional parameters
-        height = 1
+        # that they can be optional parameters.  with zero height, shadows
+        # stay within max_rows of the row that casts them
+        height = 0
         pitch = 1 / gcr
 
     # keep track of scalar inputs so that we can have output match at the end
-- 
2.43.0

