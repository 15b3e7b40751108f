from .registry import Prop, congs

P = "dsps.photometry.photometry_kernels."
PP = "dsps.photometry.photpop."
W = "dsps/photometry/photometry_kernels.py:"

Prop("F01", "AB magnitudes are transmission-weighted flux ratios",
     "A rest-frame flux is the trapezoid integral over the filter's wavelengths of T L/lambda, with L interpolated linearly on the filter grid and zero outside the spectrum's "
     "tabulated range, divided by 1.13492e-13 times the integral of T/lambda; a rest magnitude is -2.5 log10 of it. "
     "The undimmed observed magnitude at redshift z is the same expression for the spectrum placed at wavelengths (1+z) lambda.",
     "every spectrum, filter curve, wavelength grid and redshift",
     "tests use one fake SSP library and a few filters and mostly check finiteness or consistency between sibling functions",
     ["dsps/photometry/photometry_kernels.py", "dsps/utils.py"], [("calc_rest_flux, calc_rest_mag, calc_obs_mag", W + "calc_rest_mag")],
     lambda: congs(P, "calc_rest_flux", "calc_rest_mag", "_calc_obs_mag_no_dimming") + congs("dsps.utils.", "trapz"), 7)

Prop("F02", "Observed magnitude = k-corrected magnitude + cosmological dimming",
     "For any spectrum, filter, redshift and cosmology the observed magnitude is the undimmed observed magnitude plus the distance modulus minus 2.5 log10(1+z). "
     "The tabulated form of the dimming interpolates the distance-modulus table linearly in redshift and subtracts the same 2.5 log10(1+z).",
     "every spectrum, filter, redshift and cosmology",
     "tests check one cosmology and a few redshifts",
     ["dsps/photometry/photometry_kernels.py", "dsps/cosmology/flat_wcdm.py"],
     [("calc_obs_mag", W + "calc_obs_mag"), ("_cosmological_dimming", W + "_cosmological_dimming")],
     lambda: congs(P, "calc_obs_mag", "_cosmological_dimming", "_cosmological_dimming_from_table"), 5)

Prop("F03", "SSP magnitude tables are scalar magnitudes laid out as (z, met, age, filter)",
     "Entry [iz, im, ia, ifilt] of the observed-magnitude table is the observed magnitude of SSP (im, ia) through filter ifilt at redshift z_table[iz]; the rest-frame and "
     "k-corrected tables are laid out (met, age, filter) and hold the rest magnitude and the undimmed magnitude at the given redshift. "
     "This holds for every number of redshifts, metallicities, ages, filters and wavelengths.",
     "every SSP grid, filter set and redshift table",
     "tests check shapes and one fake SSP library",
     ["dsps/photometry/photpop.py"], [("precompute_ssp_*", "dsps/photometry/photpop.py:precompute_ssp_obsmags_on_z_table")],
     lambda: congs(PP, "precompute_ssp_obsmags_on_z_table", "precompute_ssp_restmags", "precompute_ssp_restmags_z_kcorrect"), 6)

Prop("F05", "Effective wavelength is the transmission-weighted mean over (1+z)",
     "The effective wavelength of a filter is the trapezoid integral of lambda T divided by that of T, divided by (1 + redshift), for every curve and redshift.",
     "every filter curve and redshift",
     "tests check one filter",
     ["dsps/dust/utils.py"], [("get_filter_effective_wavelength", "dsps/dust/utils.py:get_filter_effective_wavelength")],
     lambda: congs("dsps.dust.utils.", "get_filter_effective_wavelength"), 2)
