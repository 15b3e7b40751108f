From 24398aac0db87990965590f873151a9f5e8e2de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 1/6] fix: reject transmission curves whose maximum exceeds
 unity

The upper-bound check tested the minimum, so a curve with values well above
unity was silently clipped instead of raising ValueError.
---
 dsps/data_loaders/load_filter_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/data_loaders/load_filter_data.py b/dsps/data_loaders/load_filter_data.py
index 9ce126f..54a3d14 100644
--- a/dsps/data_loaders/load_filter_data.py
+++ b/dsps/data_loaders/load_filter_data.py
@@ -80,7 +80,7 @@ def load_transmission_curve(fn=None, bn_pat=None, drn=None):
 
         if transmission.min() < -TOL:
             raise ValueError(f"Negatively-valued transmission curve for {fn}")
-        elif transmission.min() > 1 + TOL:
+        elif transmission.max() > 1 + TOL:
             raise ValueError(f"transmission curve exceeds unity for {fn}")
         else:
             transmission = np.clip(transmission, 0.0, 1.0)
-- 
2.43.0


From ac45434cdae78cafaffa69adf3f4e7f76728a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 2/6] fix: write_fsps_data_to_disk handles SSP data without
 emission lines

SSPData always has the ssp_emline_wave field; without emission lines it
stores None, and the script crashed on None._fields.
---
 scripts/write_fsps_data_to_disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/write_fsps_data_to_disk.py b/scripts/write_fsps_data_to_disk.py
index cb97ea1..fea1187 100644
--- a/scripts/write_fsps_data_to_disk.py
+++ b/scripts/write_fsps_data_to_disk.py
@@ -32,7 +32,7 @@ if __name__ == "__main__":
     with h5py.File(args.outname, "w") as hdf:
         for key, arr in zip(DEFAULT_SSP_KEYS, ssp_data):
             hdf[key] = arr
-        if "ssp_emline_wave" in ssp_data._fields:
+        if ssp_data.ssp_emline_wave is not None:
             ssp_emline_name = list(ssp_data.ssp_emline_wave._fields)
             ssp_emline_wave = np.array(
                 [getattr(ssp_data.ssp_emline_wave, name) for name in ssp_emline_name]
-- 
2.43.0


From f82a83ceb99e1e619b96dce774b36390188c7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 3/6] fix: apply sfr_min to the age weights of the rest-frame
 SED

calc_rest_sed_sfh_table_* applied the sfr_min argument to the stellar mass
but computed the SSP weights with the default SFR floor.
---
 dsps/sed/ssp_weights.py | 13 +++++++++++--
 dsps/sed/stellar_sed.py |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/dsps/sed/ssp_weights.py b/dsps/sed/ssp_weights.py
index 8a6c9c1..1255193 100644
--- a/dsps/sed/ssp_weights.py
+++ b/dsps/sed/ssp_weights.py
@@ -10,6 +10,7 @@ import typing
 from jax import jit as jjit
 from jax import numpy as jnp
 
+from ..constants import SFR_MIN
 from .metallicity_weights import (
     calc_lgmet_weights_from_lgmet_table,
     calc_lgmet_weights_from_lognormal_mdf,
@@ -37,6 +38,7 @@ def calc_ssp_weights_sfh_table_lognormal_mdf(
     ssp_lgmet,
     ssp_lg_age_gyr,
     t_obs,
+    sfr_min=SFR_MIN,
 ):
     """Calculate SSP weights of a tabulated SFH and a lognormal MDF
 
@@ -63,6 +65,9 @@ def calc_ssp_weights_sfh_table_lognormal_mdf(
     t_obs : float
         Age of the universe in Gyr at the time the galaxy is observed
 
+    sfr_min : float, optional
+        Minimum star formation rate in Msun/yr. Default is SFR_MIN.
+
     Returns
     -------
     SSPWeights : namedtuple with the following entries:
@@ -78,7 +83,7 @@ def calc_ssp_weights_sfh_table_lognormal_mdf(
 
     """
     age_weights = calc_age_weights_from_sfh_table(
-        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs
+        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs, sfr_min
     )
     lgmet_weights = calc_lgmet_weights_from_lognormal_mdf(
         gal_lgmet, gal_lgmet_scatter, ssp_lgmet
@@ -99,6 +104,7 @@ def calc_ssp_weights_sfh_table_met_table(
     ssp_lgmet,
     ssp_lg_age_gyr,
     t_obs,
+    sfr_min=SFR_MIN,
 ):
     """Calculate SSP weights of a tabulated star-formation and metallicity history
 
@@ -125,6 +131,9 @@ def calc_ssp_weights_sfh_table_met_table(
     t_obs : float
         Age of the universe in Gyr at the time the galaxy is observed
 
+    sfr_min : float, optional
+        Minimum star formation rate in Msun/yr. Default is SFR_MIN.
+
     Returns
     -------
     SSPWeights : namedtuple with the following entries:
@@ -140,7 +149,7 @@ def calc_ssp_weights_sfh_table_met_table(
 
     """
     age_weights = calc_age_weights_from_sfh_table(
-        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs
+        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs, sfr_min
     )
     lgmet_weights = calc_lgmet_weights_from_lgmet_table(
         gal_t_table,
diff --git a/dsps/sed/stellar_sed.py b/dsps/sed/stellar_sed.py
index 41aa983..8323c9c 100644
--- a/dsps/sed/stellar_sed.py
+++ b/dsps/sed/stellar_sed.py
@@ -111,6 +111,7 @@ def calc_rest_sed_sfh_table_lognormal_mdf(
         ssp_lgmet,
         ssp_lg_age_gyr,
         t_obs,
+        sfr_min,
     )
     n_met, n_ages = weights.shape
     sed_unit_mstar = jnp.sum(
@@ -194,6 +195,7 @@ def calc_rest_sed_sfh_table_met_table(
         ssp_lgmet,
         ssp_lg_age_gyr,
         t_obs,
+        sfr_min,
     )
     n_met, n_ages = weights.shape
     sed_unit_mstar = jnp.sum(
-- 
2.43.0


From d69138efab7c28cd9548a432ecb31b7f6f70a2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 4/6] fix: enable 64-bit precision before any import-time JAX
 computation

TODAY was computed in single precision because cosmology was imported
before sed had set jax_enable_x64.
---
 dsps/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsps/__init__.py b/dsps/__init__.py
index 44cb25d..0921e33 100644
--- a/dsps/__init__.py
+++ b/dsps/__init__.py
@@ -1,6 +1,11 @@
 # flake8: noqa
 """
 """
+import jax
+
+# Must precede the imports below, which compute JAX constants at import time
+jax.config.update("jax_enable_x64", True)
+
 from ._version import __version__
 from .data_loaders import SSPData, load_ssp_templates, load_transmission_curve
 from .photometry import *
-- 
2.43.0


From d0d575885f8716550379b3d41e1ceb1028b06664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 5/6] fix: legend labels of the MZR comparison plot were
 swapped

params is plotted with solid lines and described by label1; params2 is
plotted with dashed lines and described by label2.
---
 dsps/metallicity/diagnostics/plot_mzr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsps/metallicity/diagnostics/plot_mzr.py b/dsps/metallicity/diagnostics/plot_mzr.py
index a32b765..6c43a61 100644
--- a/dsps/metallicity/diagnostics/plot_mzr.py
+++ b/dsps/metallicity/diagnostics/plot_mzr.py
@@ -115,8 +115,8 @@ def make_mzr_comparison_plot(
 
     red_line = mlines.Line2D([], [], ls="-", c=colors[0], label=r"${\rm z=3}$")
     blue_line = mlines.Line2D([], [], ls="-", c=colors[-1], label=r"${\rm z=0}$")
-    solid_line = mlines.Line2D([], [], ls="-", c="gray", label=label2)
-    dashed_line = mlines.Line2D([], [], ls="--", c="gray", label=label1)
+    solid_line = mlines.Line2D([], [], ls="-", c="gray", label=label1)
+    dashed_line = mlines.Line2D([], [], ls="--", c="gray", label=label2)
     black_star = mlines.Line2D(
         [],
         [],
-- 
2.43.0


From 3472da37a66a81a7e0e87afc85aa33cad32e720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 6/6] fix: bin widths of an integer-valued grid were truncated
 to integers

The buffer holding the widths inherited the integer dtype of the input.
---
 dsps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/utils.py b/dsps/utils.py
index 640dd79..3e859ca 100644
--- a/dsps/utils.py
+++ b/dsps/utils.py
@@ -14,8 +14,8 @@ YEAR_PER_GYR = 1e9
 
 @jjit
 def _jax_get_dt_array(t):
-    dt = jnp.zeros_like(t)
     tmids = 0.5 * (t[:-1] + t[1:])
+    dt = jnp.zeros_like(t, dtype=tmids.dtype)
     dtmids = jnp.diff(tmids)
 
     dt = dt.at[1:-1].set(dtmids)
-- 
2.43.0

