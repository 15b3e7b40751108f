from . import props_misc
from .registry import Prop, congs

U, A, ME, W, S_, B = "dsps.utils.", "dsps.sed.stellar_age_weights.", "dsps.sed.metallicity_weights.", "dsps.sed.ssp_weights.", "dsps.sed.stellar_sed.", "dsps.sfh.diffburst."

Prop("W05", "Triweight kernels: CDF, density, sigmoid, histogram and bin weights agree",
     "With z = (x-m)/h the triweight density is (35/96)(1 - z^2/9)^3/h inside |z| <= 3 and 0 outside, and its CDF is the exact integral, 0 below -3 and 1 above 3; sigmoids and sigmoid-slopes interpolate "
     "linearly between their end values with that CDF. "
     "The histogram of a point gives the CDF difference of each bin; normalised bin weights divide it by its sum, or put all weight in the first (last) bin when the point lies below (above) every edge and misses them.",
     "every position, width > 0 and set of bins",
     "tests sample random points and compare sums or end values only",
     ["dsps/utils.py"], [("triweight kernels", "dsps/utils.py:_tw_cuml_kern")],
     lambda: congs(U, "_tw_cuml_kern", "_tw_sigmoid", "triweighted_histogram", "triweight_gaussian", "_tw_sig_slope", "_get_triweights_singlepoint"), 8)

Prop("W06", "Cumulative stellar mass is the trapezoid integral of the SFH in years",
     "Element i of the mass formed is 1e9 yr/Gyr times the cumulative trapezoid integral of the tabulated SFH up to t_i, starting from a rate of 1e-14 Msun/yr at t = 0.001 Gyr. "
     "The cumulative trapezoid returns zero first and partial sums of (x_i+1 - x_i)(y_i+1 + y_i)/2 after it, for arrays of any length.",
     "every table of times and rates",
     "tests check one or two smooth histories",
     ["dsps/utils.py"], [("cumulative_mstar_formed", "dsps/utils.py:cumulative_mstar_formed"), ("cumtrapz", "dsps/utils.py:cumtrapz")],
     lambda: congs(U, "cumtrapz", "trapz", "cumulative_mstar_formed"), 6)

Prop("W08", "Sigmoid helpers, outer products and power-law density are exact elementwise maps",
     "The logistic sigmoid goes from its lower to its upper value with slope parameter k about x0, its inverse undoes it for every value strictly between the bounds, and the sigmoid-slope is a line through the pivot with sigmoid slope. "
     "Weight matrices are outer products, per object for populations; the power-law density is g x^(g-1)/(b^g - a^g).",
     "every argument in the declared domains",
     "tests sample a few values",
     ["dsps/utils.py"], [("_sigmoid, _inverse_sigmoid, _sig_slope", "dsps/utils.py:_sigmoid"), ("_mult_*_vmap", "dsps/utils.py:_mult_2d_vmap")],
     lambda: congs(U, "_sigmoid", "_inverse_sigmoid", "_sig_slope", "_mult_2d_vmap", "_mult_3d_vmap", "_get_weight_matrices_2d", "_get_weight_matrices_3d", "powerlaw_pdf"), 12)

Prop("B02", "Burst weights mix a unit-sum triweight burst with the smooth weights",
     "A burst puts weights proportional to a triweight in log10(age/yr), centred on its peak, whose 3-sigma edge is its maximum age, normalised to sum to one over the SSP ages. "
     "The bursty weights are smooth + F (burst - smooth) with F = 10^lgfburst and SSP ages given in log10 Gyr; the unbounded-parameter form maps the parameters first.",
     "every burst parameter set, age grid and smooth weights",
     "tests sample a few parameters and check sums",
     ["dsps/sfh/diffburst.py"], [("calc_bursty_age_weights", "dsps/sfh/diffburst.py:calc_bursty_age_weights")],
     lambda: congs(B, "calc_bursty_age_weights", "calc_bursty_age_weights_from_u_params", "_pureburst_age_weights_from_params", "_pureburst_age_weights_from_u_params",
                   "_compute_bursty_age_weights_from_params", "_compute_bursty_age_weights_from_u_params"), 8)

Prop("B01", "Burst parameters map to and from unbounded space within their bounds",
     "Unbounded burst parameters map through logistic sigmoids (k = 0.1) to lgfburst in (-8, -1), peak age in (5, 8) and maximum age between peak + 1 and 9, in log10 yr. "
     "The inverse transform undoes it for every parameter set inside those bounds.",
     "every unbounded parameter set, and every bounded one inside the bounds",
     "tests round-trip a few random parameters",
     ["dsps/sfh/diffburst.py"], [("_get_params_from_u_params", "dsps/sfh/diffburst.py:_get_params_from_u_params")],
     lambda: congs(B, "_get_params_from_u_params", "_get_u_params_from_params") + props_misc.B01_extra(), 12)

WS = ["dsps/sed/ssp_weights.py", "dsps/sed/stellar_age_weights.py", "dsps/sed/metallicity_weights.py"]

Prop("W03", "Age weights are mass formed per SSP age bin, normalised to unit sum",
     "The weight of an SSP age bin is the stellar mass formed between the birth times of its two edges divided by the sum over bins, so weights sum to one; birth time is max(t_obs - age, 0.001 Gyr), "
     "and mass formed is 10 to the linear interpolation in log10 t of log10 of the cumulative trapezoid integral of max(SFR, sfr_min). "
     "Bin edges are midpoint minus half the local bin width, closed by half a spacing outside the first and last age; sfr_min defaults to 1e-14 Msun/yr.",
     "every SFH table, age grid, observation time and sfr_min",
     "tests compare a few smooth histories with coarse numerical integrals or only check the sum",
     ["dsps/sed/stellar_age_weights.py", "dsps/utils.py"],
     [("calc_age_weights_from_sfh_table", "dsps/sed/stellar_age_weights.py:calc_age_weights_from_sfh_table"), ("bin edges", "dsps/utils.py:_get_bin_edges")],
     lambda: congs(A, "calc_age_weights_from_sfh_table", "_calc_age_weights_from_logsm_table") + congs(A, "_get_linspace_time_tables", "_get_lgt_birth", optional=True), 8)

Prop("W04", "Metallicity weights are the lognormal's share of each SSP metallicity bin",
     "The weights of a (triweight) lognormal metallicity distribution are its normalised bin probabilities on bins around the SSP metallicities, closed at -10 and 10, and sum to one. "
     "For a metallicity history, column j of the (metallicity, age) weights is that distribution centred on the metallicity interpolated linearly in log10 t at the birth time of age bin j, divided by the number of ages.",
     "every metallicity, positive scatter, SSP grid, metallicity history and observation time",
     "tests sample random metallicities and check sums or shapes",
     ["dsps/sed/metallicity_weights.py", "dsps/utils.py"],
     [("calc_lgmet_weights_from_*", "dsps/sed/metallicity_weights.py:calc_lgmet_weights_from_lognormal_mdf")],
     lambda: congs(ME, "calc_lgmet_weights_from_lognormal_mdf", "calc_lgmet_weights_from_lgmet_table", "_get_lgmet_weights_singlegal"), 5)

Prop("W01", "Joint SSP weights are the normalised product of metallicity and age weights",
     "For every galaxy history, the joint weight of SSP (metallicity i, age j) is lgmet_weight times age_weight_j over their total, so the joint weights sum to one; with a metallicity history lgmet_weight has its own value per (i, j). "
     "The returned triple holds joint, metallicity and age weights in that order, consistent with the stand-alone functions for the same inputs, including sfr_min.",
     "every SFH and metallicity table, SSP grid, observation time and sfr_min",
     "tests check shapes and sums for a couple of histories",
     WS, [("calc_ssp_weights_sfh_table_*", "dsps/sed/ssp_weights.py:calc_ssp_weights_sfh_table_lognormal_mdf")],
     lambda: congs(W, "calc_ssp_weights_sfh_table_lognormal_mdf", "calc_ssp_weights_sfh_table_met_table"), 24)

Prop("W02", "Rest-frame SED = stellar mass at t_obs times the weighted sum of SSP fluxes",
     "The rest SED at each wavelength is M(t_obs) times the sum over (metallicity, age) of joint weight times SSP flux, where M(t_obs) is the cumulative mass formed, interpolated in log10 t, of the same SFH with the same sfr_min. "
     "The SED functions return SED, joint weights, metallicity weights and age weights in that order, the weights equal to those of the weight functions for the same inputs.",
     "every SFH and metallicity table, SSP library, observation time and sfr_min",
     "tests check shapes and finiteness for one or two histories",
     ["dsps/sed/stellar_sed.py"] + WS, [("calc_rest_sed_sfh_table_*", "dsps/sed/stellar_sed.py:calc_rest_sed_sfh_table_lognormal_mdf")],
     lambda: congs(S_, "calc_rest_sed_sfh_table_lognormal_mdf", "calc_rest_sed_sfh_table_met_table"), 45)

Prop("W07", "Bin widths and edges follow the midpoint rule on any grid",
     "The width of an interior bin is half the distance between its neighbours, of the first bin the first spacing, and of the last half its spacing plus a quarter of the distance over two bins, in floating point even for integer grids. "
     "Bin edges are the lowest edge, then each later midpoint minus half its width, then the highest edge.",
     "every grid of at least three midpoints",
     "tests use uniform or log-uniform grids",
     ["dsps/utils.py"], [("_get_bin_edges", "dsps/utils.py:_get_bin_edges"), ("_jax_get_dt_array", "dsps/utils.py:_jax_get_dt_array")],
     lambda: congs(U, "_get_bin_edges", "_jax_get_dt_array") + congs(A, "_get_lg_age_bin_edges"), 3)
