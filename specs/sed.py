"""Reference definitions: SSP weights and rest-frame SEDs."""
import jax
from jax import numpy as jnp

from .constants import *
from .kernels import cumtrapz, tw_weights


def bin_widths(t):
    """spacing of midpoints; half-open end bins"""
    first = t[1:2] - t[:1]
    mid = (t[2:] - t[:-2]) / 2
    last = (t[-1:] - t[-2:-1]) / 2 + (t[-1:] - t[-3:-2]) / 4
    return jnp.concatenate([first, mid, last])


def bin_edges(mids, lowest, highest):
    e = mids - bin_widths(mids) / 2
    lo = jnp.ones(1) * lowest
    hi = jnp.ones(1) * highest
    return jnp.concatenate([lo, e[1:], hi])


def lg_age_edges(lg_ages):
    w = bin_widths(lg_ages)
    lo = lg_ages[0] - (lg_ages[1] - lg_ages[0]) / 2
    hi = lg_ages[-1] + w[-1] / 2
    return bin_edges(lg_ages, lo, hi)


def mstar_formed(t_table, sfh_table):
    """trapezoid with one extra knot (T_BIRTH_MIN, SFR_MIN) in front"""
    t = jnp.concatenate([jnp.array([T_BIRTH_MIN]), t_table])
    s = jnp.concatenate([jnp.array([SFR_MIN]), sfh_table])
    return YR_PER_GYR * cumtrapz(t, s)[1:]


def logsm_table(t_table, sfr_table, sfr_min):
    return jnp.log10(mstar_formed(t_table, jnp.maximum(sfr_table, sfr_min)))


def lgt_birth(t_obs, lg_ages):
    return jnp.log10(jnp.maximum(t_obs - 10**lg_ages, T_BIRTH_MIN))


def mass_at(lgt, lgt_table, logsm):
    return 10 ** jnp.interp(lgt, lgt_table, logsm)


def age_weights_from_logsm(lgt_table, logsm, ssp_lg_age_gyr, t_obs):
    m = mass_at(lgt_birth(t_obs, lg_age_edges(ssp_lg_age_gyr)), lgt_table, logsm)
    w = m[:-1] - m[1:]
    return lgt_birth(t_obs, ssp_lg_age_gyr), w / jnp.sum(w)


def age_weights(t_table, sfr_table, ssp_lg_age_gyr, t_obs, sfr_min=SFR_MIN):
    lsm = logsm_table(t_table, sfr_table, sfr_min)
    return age_weights_from_logsm(jnp.log10(t_table), lsm, ssp_lg_age_gyr, t_obs)[1]


def linspace_time_tables(t0):
    t = T_BIRTH_MIN + (t0 - T_BIRTH_MIN) * jnp.arange(N_T_LGSM) / (N_T_LGSM - 1)
    return t, jnp.log10(t), bin_widths(t)


def lgmet_weights(gal_lgmet, scatter, ssp_lgmet):
    return tw_weights(gal_lgmet, scatter, bin_edges(ssp_lgmet, LGMET_LO, LGMET_HI))


def lgmet_weights_table(t_table, lgmet_table, scatter, ssp_lgmet, ssp_lg_age_gyr, t_obs):
    """(n_met, n_age): column j is the MDF at the birth time of age bin j, over n_age"""
    zj = jnp.interp(lgt_birth(t_obs, ssp_lg_age_gyr), jnp.log10(t_table), lgmet_table)
    edges = bin_edges(ssp_lgmet, LGMET_LO, LGMET_HI)
    rows = jax.vmap(lambda z: tw_weights(z, scatter, edges))(zj)
    return rows.T / ssp_lg_age_gyr.shape[0]


def ssp_weights_lognormal(t_table, sfr_table, lgmet, scatter, ssp_lgmet, ssp_lg_age_gyr, t_obs, sfr_min=SFR_MIN):
    wa = age_weights(t_table, sfr_table, ssp_lg_age_gyr, t_obs, sfr_min)
    wz = lgmet_weights(lgmet, scatter, ssp_lgmet)
    w = wz[:, None] * wa[None, :]
    return w / jnp.sum(w), wz, wa


def ssp_weights_table(t_table, sfr_table, lgmet_table, scatter, ssp_lgmet, ssp_lg_age_gyr, t_obs, sfr_min=SFR_MIN):
    wa = age_weights(t_table, sfr_table, ssp_lg_age_gyr, t_obs, sfr_min)
    wz = lgmet_weights_table(t_table, lgmet_table, scatter, ssp_lgmet, ssp_lg_age_gyr, t_obs)
    w = wz * wa[None, :]
    return w / jnp.sum(w), wz, wa


def _sed(w, t_table, sfr_table, ssp_flux, t_obs, sfr_min):
    mstar = mass_at(jnp.log10(t_obs), jnp.log10(t_table), logsm_table(t_table, sfr_table, sfr_min))
    return mstar * jnp.einsum("ij,ijk->k", w, ssp_flux)


def rest_sed_lognormal(t_table, sfr_table, lgmet, scatter, ssp_lgmet, ssp_lg_age_gyr, ssp_flux, t_obs, sfr_min=SFR_MIN):
    w, wz, wa = ssp_weights_lognormal(t_table, sfr_table, lgmet, scatter, ssp_lgmet, ssp_lg_age_gyr, t_obs, sfr_min)
    return _sed(w, t_table, sfr_table, ssp_flux, t_obs, sfr_min), w, wz, wa


def rest_sed_table(t_table, sfr_table, lgmet_table, scatter, ssp_lgmet, ssp_lg_age_gyr, ssp_flux, t_obs, sfr_min=SFR_MIN):
    w, wz, wa = ssp_weights_table(t_table, sfr_table, lgmet_table, scatter, ssp_lgmet, ssp_lg_age_gyr, t_obs, sfr_min)
    return _sed(w, t_table, sfr_table, ssp_flux, t_obs, sfr_min), w, wz, wa
