"""code function -> reference definition (same positional parameters)."""
U, A, ME, W, S_, P, PP, C, D, BB, M, UM, B, I, EW = (
    "dsps.utils.", "dsps.sed.stellar_age_weights.", "dsps.sed.metallicity_weights.", "dsps.sed.ssp_weights.",
    "dsps.sed.stellar_sed.", "dsps.photometry.photometry_kernels.", "dsps.photometry.photpop.",
    "dsps.cosmology.flat_wcdm.", "dsps.dust.att_curves.", "dsps.dust.blackbody.", "dsps.metallicity.mzr.",
    "dsps.metallicity.umzr.", "dsps.sfh.diffburst.", "dsps.imf.", "dsps.em_lines.equivalent_width.")

PAIRS = {
    U + "_jax_get_dt_array": "specs.sed.bin_widths",
    U + "_get_bin_edges": "specs.sed.bin_edges",
    U + "_tw_cuml_kern": "specs.kernels.tw_cdf",
    U + "_tw_sigmoid": "specs.kernels.tw_sigmoid",
    U + "triweighted_histogram": "specs.kernels.tw_hist",
    U + "triweight_gaussian": "specs.kernels.tw_pdf",
    U + "_tw_sig_slope": "specs.kernels.tw_sig_slope",
    U + "_get_triweights_singlepoint": "specs.kernels.tw_weights",
    U + "_sigmoid": "specs.kernels.sigmoid",
    U + "_inverse_sigmoid": "specs.kernels.inverse_sigmoid",
    U + "_sig_slope": "specs.kernels.sig_slope",
    U + "_mult_2d_vmap": "specs.kernels.outer2",
    U + "_mult_3d_vmap": "specs.kernels.outer3",
    U + "_get_weight_matrices_2d": "specs.kernels.outer2_pop",
    U + "_get_weight_matrices_3d": "specs.kernels.outer3_pop",
    U + "powerlaw_pdf": "specs.kernels.powerlaw_pdf",
    U + "cumtrapz": "specs.kernels.cumtrapz",
    U + "trapz": "specs.kernels.trapz",
    U + "cumulative_mstar_formed": "specs.sed.mstar_formed",
    ME + "calc_lgmet_weights_from_lognormal_mdf": "specs.sed.lgmet_weights",
    ME + "calc_lgmet_weights_from_lgmet_table": "specs.sed.lgmet_weights_table",
    ME + "_get_lgmet_weights_singlegal": "specs.kernels.tw_weights",
    A + "calc_age_weights_from_sfh_table": "specs.sed.age_weights",
    A + "_calc_age_weights_from_logsm_table": "specs.sed.age_weights_from_logsm",
    A + "_get_linspace_time_tables": "specs.sed.linspace_time_tables",
    A + "_get_lgt_birth": "specs.sed.lgt_birth",
    A + "_get_lg_age_bin_edges": "specs.sed.lg_age_edges",
    A + "_calc_logsm_table_from_sfh_table": "specs.sed.logsm_table",
    W + "calc_ssp_weights_sfh_table_lognormal_mdf": "specs.sed.ssp_weights_lognormal",
    W + "calc_ssp_weights_sfh_table_met_table": "specs.sed.ssp_weights_table",
    S_ + "calc_rest_sed_sfh_table_lognormal_mdf": "specs.sed.rest_sed_lognormal",
    S_ + "calc_rest_sed_sfh_table_met_table": "specs.sed.rest_sed_table",
    P + "calc_obs_mag": "specs.phot.obs_mag",
    P + "calc_rest_mag": "specs.phot.rest_mag",
    P + "calc_rest_flux": "specs.phot.rest_flux",
    P + "_calc_obs_mag_no_dimming": "specs.phot.obs_mag_no_dimming",
    P + "_cosmological_dimming": "specs.phot.dimming",
    P + "_cosmological_dimming_from_table": "specs.phot.dimming_from_table",
    PP + "precompute_ssp_obsmags_on_z_table": "specs.phot.pop_obsmags",
    PP + "precompute_ssp_restmags": "specs.phot.pop_restmags",
    PP + "precompute_ssp_restmags_z_kcorrect": "specs.phot.pop_restmags_z",
    C + "comoving_distance_to_z": "specs.cosmo.comoving_distance",
    C + "luminosity_distance_to_z": "specs.cosmo.luminosity_distance",
    C + "angular_diameter_distance_to_z": "specs.cosmo.angular_diameter_distance",
    C + "distance_modulus_to_z": "specs.cosmo.distance_modulus",
    C + "lookback_to_z": "specs.cosmo.lookback",
    C + "age_at_z0": "specs.cosmo.age_at_z0",
    C + "age_at_z": "specs.cosmo.age_at_z",
    C + "rho_crit": "specs.cosmo.rho_crit",
    C + "virial_dynamical_time": "specs.cosmo.virial_dynamical_time",
    C + "hubble_distance_mpc": "specs.cosmo.hubble_distance",
    C + "differential_comoving_volume_at_z": "specs.cosmo.dvdz",
    C + "comoving_distance": "specs.cosmo.v_comoving_distance",
    C + "luminosity_distance": "specs.cosmo.v_luminosity_distance",
    C + "angular_diameter_distance": "specs.cosmo.v_angular_diameter_distance",
    C + "distance_modulus": "specs.cosmo.v_distance_modulus",
    C + "lookback_time": "specs.cosmo.v_lookback",
    C + "differential_comoving_volume": "specs.cosmo.v_dvdz",
    C + "_Om": "specs.cosmo.Om_at_z",
    C + "_delta_vir": "specs.cosmo.delta_vir",
    D + "_frac_transmission_from_k_lambda": "specs.dust.ftrans",
    D + "_l02_below_c00_above": "specs.dust.base_k",
    D + "power_law_vband_norm": "specs.dust.plaw",
    D + "noll09_k_att_curve": "specs.dust.noll_att",
    D + "noll09_k_lambda": "specs.dust.noll_k",
    D + "sbl18_k_att_curve": "specs.dust.sbl_att",
    D + "sbl18_k_lambda": "specs.dust.sbl_k",
    D + "calzetti00_att_curve": "specs.dust.calzetti_att",
    D + "leitherer02_att_curve": "specs.dust.leitherer_att",
    D + "calzetti00_k_lambda": "specs.dust.calzetti_k",
    D + "leitherer02_k_lambda": "specs.dust.leitherer_k",
    D + "triweight_k_lambda": "specs.dust.triweight_k",
    D + "_get_eb_from_delta": "specs.dust.eb_from_delta",
    "dsps.dust.utils.get_filter_effective_wavelength": "specs.phot.effective_wavelength",
    BB + "blackbody_freq_density": "specs.dust.bb_nu",
    BB + "blackbody_wave_density": "specs.dust.bb_lam",
    BB + "_blackbody_freq_density_si": "specs.dust.bb_nu_si",
    BB + "_blackbody_wave_density_si": "specs.dust.bb_lam_si",
    M + "mzr_model_t0": "specs.mzr.t0_model",
    M + "maiolino08_metallicity_evolution": "specs.mzr.maiolino",
    M + "mzr_evolution_model": "specs.mzr.evolution",
    M + "mzr_model": "specs.mzr.model",
    UM + "mzr_model_t0": "specs.mzr.t0_model_u",
    UM + "mzr_evolution_model": "specs.mzr.evolution_u",
    UM + "mzr_model": "specs.mzr.model_u",
    B + "calc_bursty_age_weights": "specs.burst.mix",
    B + "calc_bursty_age_weights_from_u_params": "specs.burst.mix_u",
    B + "_pureburst_age_weights_from_params": "specs.burst.pure",
    B + "_pureburst_age_weights_from_u_params": "specs.burst.pure_u",
    B + "_get_params_from_u_params": "specs.burst.params_from_u",
    B + "_get_u_params_from_params": "specs.burst.u_from_params",
    B + "_compute_bursty_age_weights_from_params": "specs.burst.mix_yr",
    B + "_compute_bursty_age_weights_from_u_params": "specs.burst.mix_yr_u",
    I + "remnant_mass.remnant_mass": "specs.imf.remnant",
    I + "surviving_mstar.surviving_mstar": "specs.imf.surviving",
    I + "surviving_mstar._returned_mass": "specs.imf.returned",
    EW + "_ew_kernel": "specs.lines.ew",
    EW + "_continuum_line_decomp_kern": "specs.lines.decomp",
    EW + "_weighted_quadratic_fit": "specs.lines.fit",
}
