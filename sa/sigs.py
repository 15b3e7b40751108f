"""Declared inputs of the analysed functions (from their documentation and call sites)."""

COSMO = [("Om0", "in(0,1)"), ("w0", ""), ("wa", ""), ("h", ">0")]
Z = ("redshift", ">=0")
ZN = ("redshift", "[nz] >=0")
SFH = [("gal_t_table", "[nt] >0"), ("gal_sfr_table", "[nt]")]
SSPG = [("ssp_lgmet", "[nm]"), ("ssp_lg_age_gyr", "[na]")]
BURST = [("lgfburst", ""), ("lgyr_peak", ""), ("lgyr_max", "")]
MINS = {"na": 3, "nm": 3, "nt": 3, "nb": 3, "n": 3}

T0 = [("mzr_t0_ytp", ""), ("mzr_t0_x0", ""), ("mzr_t0_k", ""), ("mzr_t0_slope_lo", ""), ("mzr_t0_slope_hi", "")]
EV = [("c0_y_at_tlook_c", ""), ("c1_y_at_tlook_c", ""), ("c0_early_time_slope", ""), ("c1_early_time_slope", "")]
EVO = [("c0_y_at_tlook_c", ""), ("c1_y_at_tlook_c", ""), ("tlook_c", ">0"), ("c0_early_time_slope", ""), ("c1_early_time_slope", "")]
SPEC = [("wave_spec_rest", "[nw] >0"), ("lum_spec", "[nw] >=0")]
FILT = [("wave_filter", "[nf] >0"), ("trans_filter", "[nf] >=0")]
POPF = [("ssp_wave", "[nw] >0"), ("ssp_fluxes", "[nm,na,nw] >=0"), ("filter_waves", "[nb,nf] >0"), ("filter_trans", "[nb,nf] >=0")]
BUMP = [("uv_bump", ">0"), ("uv_bump_width", ">0")]
LAM = ("wave_micron", "[n] >0")
LINE = [("wave", "[n] >0"), ("flux", "[n]")] + [
    (k, "") for k in ("line_lo", "line_mid", "line_hi", "cont_lo_lo", "cont_lo_hi", "cont_hi_lo", "cont_hi_hi")
]


def nt(dotted):
    return ("nt", dotted)


SIGS = {
    # utils
    "dsps.utils._jax_get_dt_array": [("t", "[n]")],
    "dsps.utils._get_bin_edges": [("bin_mids", "[n]"), ("lowest_bin_edge", ""), ("highest_bin_edge", "")],
    "dsps.utils._tw_cuml_kern": [("x", ""), ("m", ""), ("h", ">0")],
    "dsps.utils._tw_sigmoid": [("x", ""), ("x0", ""), ("tw_h", ">0"), ("ymin", ""), ("ymax", "")],
    "dsps.utils.triweighted_histogram": [("x", ""), ("sig", ">0"), ("xbins", "[nb]")],
    "dsps.utils.triweight_gaussian": [("x", ""), ("m", ""), ("h", ">0")],
    "dsps.utils._tw_sig_slope": [("x", ""), ("xtp", ""), ("ytp", ""), ("x0", ""), ("tw_h", ">0"), ("lo", ""), ("hi", "")],
    "dsps.utils._get_triweights_singlepoint": [("x", ""), ("sig", ">0"), ("bin_edges", "[nb] asc")],
    "dsps.utils._sigmoid": [("x", ""), ("x0", ""), ("k", ""), ("ylo", ""), ("yhi", "")],
    "dsps.utils._inverse_sigmoid": [("y", ""), ("x0", ""), ("k", "!=0"), ("ylo", ""), ("yhi", "")],
    "dsps.utils._sig_slope": [("x", ""), ("xtp", ""), ("ytp", ""), ("x0", ""), ("slope_k", ""), ("lo", ""), ("hi", "")],
    "dsps.utils._mult_2d_vmap": [("w1", "[na]"), ("w2", "[nb]")],
    "dsps.utils._get_weight_matrices_2d": [("w1", "[ng,na]"), ("w2", "[ng,nb]")],
    "dsps.utils._mult_3d_vmap": [("w1", "[na]"), ("w2", "[nb]"), ("w3", "[nc]")],
    "dsps.utils._get_weight_matrices_3d": [("w1", "[ng,na]"), ("w2", "[ng,nb]"), ("w3", "[ng,nc]")],
    "dsps.utils.powerlaw_pdf": [("x", "[n] >0"), ("a", "[n] >0"), ("b", "[n] >0"), ("g", "[n] !=0")],
    "dsps.utils.powerlaw_rvs": [("ran_key", "key"), ("a", "[n] >0"), ("b", "[n] >0"), ("g", "[n] !=0")],
    "dsps.utils.cumtrapz": [("xarr", "[n]"), ("yarr", "[n]")],
    "dsps.utils.trapz": [("xarr", "[n]"), ("yarr", "[n]")],
    "dsps.utils.cumulative_mstar_formed": [("t_table", "[nt] >0"), ("sfh_table", "[nt]")],
    # sed
    "dsps.sed.metallicity_weights.calc_lgmet_weights_from_lognormal_mdf": [("gal_lgmet", ""), ("gal_lgmet_scatter", ">0"), ("ssp_lgmet", "[nm]")],
    "dsps.sed.metallicity_weights.calc_lgmet_weights_from_lgmet_table": [
        ("gal_t_table", "[nt] >0"), ("gal_lgmet_table", "[nt]"), ("gal_lgmet_scatter", ">0"),
        ("ssp_lgmet", "[nm]"), ("ssp_lg_age_gyr", "[na]"), ("t_obs", ">0")],
    "dsps.sed.metallicity_weights._get_lgmet_weights_singlegal": [("gal_lgmet", ""), ("gal_lgmet_scatter", ">0"), ("lgmetbin_edges", "[nb] asc")],
    "dsps.sed.stellar_age_weights.calc_age_weights_from_sfh_table": SFH + [("ssp_lg_age_gyr", "[na]"), ("t_obs", ">0"), ("sfr_min", ">0")],
    "dsps.sed.stellar_age_weights._calc_age_weights_from_logsm_table": [
        ("lgt_table", "[nt]"), ("logsm_table", "[nt]"), ("ssp_lg_age_gyr", "[na]"), ("t_obs", ">0")],
    "dsps.sed.stellar_age_weights._get_linspace_time_tables": [("t0", ">0")],
    "dsps.sed.stellar_age_weights._get_lgt_birth": [("t_obs", ">0"), ("lg_ages", "[na]")],
    "dsps.sed.stellar_age_weights._get_lg_age_bin_edges": [("lg_ages", "[na]")],
    "dsps.sed.stellar_age_weights._calc_logsm_table_from_sfh_table": SFH + [("sfr_min", ">0")],
    "dsps.sed.ssp_weights.calc_ssp_weights_sfh_table_lognormal_mdf": SFH
    + [("gal_lgmet", ""), ("gal_lgmet_scatter", ">0")] + SSPG + [("t_obs", ">0"), ("sfr_min", ">0")],
    "dsps.sed.ssp_weights.calc_ssp_weights_sfh_table_met_table": SFH
    + [("gal_lgmet_table", "[nt]"), ("gal_lgmet_scatter", ">0")] + SSPG + [("t_obs", ">0"), ("sfr_min", ">0")],
    "dsps.sed.stellar_sed.calc_rest_sed_sfh_table_lognormal_mdf": SFH
    + [("gal_lgmet", ""), ("gal_lgmet_scatter", ">0")] + SSPG + [("ssp_flux", "[nm,na,nw]"), ("t_obs", ">0"), ("sfr_min", ">0")],
    "dsps.sed.stellar_sed.calc_rest_sed_sfh_table_met_table": SFH
    + [("gal_lgmet_table", "[nt]"), ("gal_lgmet_scatter", ">0")] + SSPG + [("ssp_flux", "[nm,na,nw]"), ("t_obs", ">0"), ("sfr_min", ">0")],
    # photometry
    "dsps.photometry.photometry_kernels.calc_obs_mag": SPEC + FILT + [Z] + COSMO,
    "dsps.photometry.photometry_kernels.calc_rest_mag": SPEC + FILT,
    "dsps.photometry.photometry_kernels.calc_rest_flux": SPEC + FILT,
    "dsps.photometry.photometry_kernels._calc_obs_mag_no_dimming": SPEC + FILT + [("z", ">=0")],
    "dsps.photometry.photometry_kernels._cosmological_dimming": [("z", ">=0")] + COSMO,
    "dsps.photometry.photometry_kernels._cosmological_dimming_from_table": [("z", ">=0"), ("z_table", "[nz]"), ("distance_modulus_table", "[nz]")],
    "dsps.photometry.photpop.precompute_ssp_obsmags_on_z_table": POPF + [("z_table", "[nz] >=0")] + COSMO,
    "dsps.photometry.photpop.precompute_ssp_restmags": POPF,
    "dsps.photometry.photpop.precompute_ssp_restmags_z_kcorrect": POPF + [("z_kcorrect", ">=0")],
    # cosmology
    "dsps.cosmology.flat_wcdm.comoving_distance_to_z": [Z] + COSMO,
    "dsps.cosmology.flat_wcdm.luminosity_distance_to_z": [Z] + COSMO,
    "dsps.cosmology.flat_wcdm.angular_diameter_distance_to_z": [Z] + COSMO,
    "dsps.cosmology.flat_wcdm.distance_modulus_to_z": [Z] + COSMO,
    "dsps.cosmology.flat_wcdm.lookback_to_z": [Z] + COSMO,
    "dsps.cosmology.flat_wcdm.age_at_z0": COSMO,
    "dsps.cosmology.flat_wcdm.age_at_z": [ZN] + COSMO,
    "dsps.cosmology.flat_wcdm.rho_crit": [Z] + COSMO,
    "dsps.cosmology.flat_wcdm.virial_dynamical_time": [ZN] + COSMO,
    "dsps.cosmology.flat_wcdm.hubble_distance_mpc": [("h", ">0")],
    "dsps.cosmology.flat_wcdm.differential_comoving_volume_at_z": [Z] + COSMO,
    "dsps.cosmology.flat_wcdm.comoving_distance": [ZN] + COSMO,
    "dsps.cosmology.flat_wcdm.luminosity_distance": [ZN] + COSMO,
    "dsps.cosmology.flat_wcdm.angular_diameter_distance": [ZN] + COSMO,
    "dsps.cosmology.flat_wcdm.distance_modulus": [ZN] + COSMO,
    "dsps.cosmology.flat_wcdm.lookback_time": [ZN] + COSMO,
    "dsps.cosmology.flat_wcdm.differential_comoving_volume": [ZN] + COSMO,
    "dsps.cosmology.flat_wcdm._Om": [ZN] + COSMO[:3],
    "dsps.cosmology.flat_wcdm._delta_vir": [ZN] + COSMO[:3],
    # dust
    "dsps.dust.att_curves._frac_transmission_from_k_lambda": [("k_lambda", "[n]"), ("av", ""), ("ftrans_floor", "")],
    "dsps.dust.att_curves._l02_below_c00_above": [LAM, ("xc", ">0")],
    "dsps.dust.att_curves.power_law_vband_norm": [LAM, ("plaw_slope", ""), ("vband_micron", ">0")],
    "dsps.dust.att_curves.noll09_k_att_curve": [LAM, ("av", ""), ("uv_bump_ampl", ""), ("plaw_slope", "")] + BUMP,
    "dsps.dust.att_curves.noll09_k_lambda": [LAM, ("uv_bump_ampl", ""), ("plaw_slope", "")] + BUMP,
    "dsps.dust.att_curves.sbl18_k_att_curve": [LAM, ("av", ""), ("uv_bump_ampl", ""), ("plaw_slope", "")] + BUMP,
    "dsps.dust.att_curves.sbl18_k_lambda": [LAM, ("uv_bump_ampl", ""), ("plaw_slope", "")] + BUMP,
    "dsps.dust.att_curves.calzetti00_att_curve": [LAM, ("av", "")],
    "dsps.dust.att_curves.leitherer02_att_curve": [LAM, ("av", "")],
    "dsps.dust.att_curves.calzetti00_k_lambda": [LAM],
    "dsps.dust.att_curves.leitherer02_k_lambda": [LAM],
    "dsps.dust.att_curves.triweight_k_lambda": [LAM, ("xtp", ""), ("ytp", ""), ("x0", ""), ("tw_h", ">0"), ("lo", ""), ("hi", "")],
    "dsps.dust.att_curves._get_eb_from_delta": [("delta", "")],
    "dsps.dust.utils.get_filter_effective_wavelength": [("filter_wave", "[nf] >0"), ("filter_trans", "[nf] >=0"), Z],
    "dsps.dust.blackbody.blackbody_freq_density": [("freq_hz", "[n] >0"), ("temp_kelvin", ">0")],
    "dsps.dust.blackbody.blackbody_wave_density": [("wave_aa", "[n] >0"), ("temp_kelvin", ">0")],
    "dsps.dust.blackbody._blackbody_freq_density_si": [("freq_hz", "[n] >0"), ("temp_kelvin", ">0")],
    "dsps.dust.blackbody._blackbody_wave_density_si": [("wave_m", "[n] >0"), ("temp_kelvin", ">0")],
    # metallicity
    "dsps.metallicity.mzr.mzr_model_t0": [("logsm", "[n]"), ("mzr_t0_y0", "")] + T0[1:],
    "dsps.metallicity.mzr.maiolino08_metallicity_evolution": [("logsm", "[n]"), ("logm0", ""), ("k0", "")],
    "dsps.metallicity.mzr.mzr_evolution_model": [("logsm", "[n]"), ("cosmic_time", "")] + EVO,
    "dsps.metallicity.mzr.mzr_model": [("logsm", "[n]"), ("t", "")] + [("mzr_t0_y0", "")] + T0[1:] + EVO,
    "dsps.metallicity.umzr.mzr_model_t0": [("logsm", "[n]")] + T0,
    "dsps.metallicity.umzr.mzr_evolution_model": [("logsm", "[n]"), ("cosmic_time", "")] + EV,
    "dsps.metallicity.umzr.mzr_model": [("logsm", "[n]"), ("t", "")] + T0 + EV,
    # burst
    "dsps.sfh.diffburst.calc_bursty_age_weights": [
        ("burst_params", ("tuple", BURST)), ("smooth_age_weights", "[na]"), ("ssp_lg_age_gyr", "[na]")],
    "dsps.sfh.diffburst.calc_bursty_age_weights_from_u_params": [
        ("u_burst_params", ("tuple", [("u_lgfburst", ""), ("u_lgyr_peak", ""), ("u_lgyr_max", "")])), ("smooth_age_weights", "[na]"), ("ssp_lg_age_gyr", "[na]")],
    "dsps.sfh.diffburst._pureburst_age_weights_from_params": [("lgyr", "[na]"), ("lgyr_peak", ""), ("lgyr_max", "")],
    "dsps.sfh.diffburst._pureburst_age_weights_from_u_params": [("lgyr", "[na]"), ("u_lgyr_peak", ""), ("u_lgyr_max", "")],
    "dsps.sfh.diffburst._get_params_from_u_params": [("u_params", ("tuple", [("u_lgfburst", ""), ("u_lgyr_peak", ""), ("u_lgyr_max", "")]))],
    "dsps.sfh.diffburst._get_u_params_from_params": [("params", ("tuple", BURST))],
    "dsps.sfh.diffburst._compute_bursty_age_weights_from_params": [("lgyr_since_burst", "[na]"), ("age_weights", "[na]"), ("params", ("tuple", BURST))],
    "dsps.sfh.diffburst._compute_bursty_age_weights_from_u_params": [
        ("lgyr_since_burst", "[na]"), ("age_weights", "[na]"), ("u_params", ("tuple", [("u_lgfburst", ""), ("u_lgyr_peak", ""), ("u_lgyr_max", "")]))],
    # imf
    "dsps.imf.remnant_mass.remnant_mass": [("lg_age_yr", "[n]")] + [(k, "") for k in ("a", "b", "lgk1", "d", "e")],
    "dsps.imf.surviving_mstar.surviving_mstar": [("lg_age_yr", "[n]")] + [(k, "") for k in ("a", "b", "lgk1", "d", "e", "f", "lgk2", "h")],
    "dsps.imf.surviving_mstar._returned_mass": [("lg_age_yr", "[n]")] + [(k, "") for k in ("a", "b", "lgk1", "d", "e", "f", "lgk2", "h")],
    # lines
    "dsps.em_lines.equivalent_width._ew_kernel": LINE,
    "dsps.em_lines.equivalent_width._continuum_line_decomp_kern": LINE,
    "dsps.em_lines.equivalent_width._weighted_quadratic_fit": [("x", "[n] >0"), ("y", "[n]"), ("w", "[n] >=0")],
}


def make_inputs(Inputs, name, lib="jnp", mins=None, sig=None):
    sig = sig or SIGS[name]
    m = dict(MINS)
    m.update(mins or {})

    def conv(d):
        if isinstance(d, tuple) and d[0] == "tuple":
            def mk(inp, nm, items=d[1]):
                return tuple(inp.make(n, conv(x)) for n, x in items)
            return mk
        return d

    return Inputs([(n, conv(d)) for n, d in sig], mins=m, lib=lib)


def _burst_facts(b):
    d = b["lgyr_max"] - b["lgyr_peak"]
    return [(d, ">0")]


def _burst_box(b):
    p, m, f = b["lgyr_peak"], b["lgyr_max"], b["lgfburst"]
    return [(f + 8, ">0"), (-1 - f, ">0"), (p - 5, ">0"), (8 - p, ">0"), (m - p - 1, ">0"), (9 - m, ">0")]


def _invsig(b):
    y, lo, hi = b["y"], b["ylo"], b["yhi"]
    return [(y - lo, ">0"), (hi - y, ">0"), (hi - lo, ">0")]


FACTS = {
    "dsps.utils._inverse_sigmoid": _invsig,
    "dsps.sfh.diffburst._get_u_params_from_params": _burst_box,
    "dsps.sfh.diffburst.calc_bursty_age_weights": _burst_facts,
    "dsps.sfh.diffburst._pureburst_age_weights_from_params": _burst_facts,
    "dsps.sfh.diffburst._compute_bursty_age_weights_from_params": _burst_facts,
}


def make_facts(inp, name):
    """declared relations between inputs, as (term, sign mask)"""
    from .session import MASKS

    f = FACTS.get(name)
    if f is None:
        return []
    b = {}

    def walk(x):
        if isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
        elif getattr(x, "src", None):
            b[x.src] = x.body

    walk(inp.args)
    return [(t, MASKS[m]) for t, m in f(b)]
