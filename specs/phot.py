"""Reference definitions: photometry."""
import jax
import numpy as np
from jax import numpy as jnp

from .constants import *
from .cosmo import distance_modulus
from .kernels import trapz


def filter_lum(wave_spec, lum, wave_f, trans_f):
    """int T(l) L(l) dl/l, spectrum zero outside its tabulated range"""
    lum_on_filter = jnp.interp(wave_f, wave_spec, lum, left=0.0, right=0.0)
    return trapz(wave_f, lum_on_filter * trans_f / wave_f)


def ab_flux(wave_spec, lum, wave_f, trans_f):
    return filter_lum(wave_spec, lum, wave_f, trans_f) / (AB0 * trapz(wave_f, trans_f / wave_f))


def rest_flux(wave_spec_rest, lum_spec, wave_filter, trans_filter):
    return ab_flux(wave_spec_rest, lum_spec, wave_filter, trans_filter)


def rest_mag(wave_spec_rest, lum_spec, wave_filter, trans_filter):
    return -2.5 * jnp.log10(rest_flux(wave_spec_rest, lum_spec, wave_filter, trans_filter))


def obs_mag_no_dimming(wave_spec_rest, lum_spec, wave_filter, trans_filter, z):
    return -2.5 * jnp.log10(ab_flux((1 + z) * wave_spec_rest, lum_spec, wave_filter, trans_filter))


def dimming(z, Om0, w0, wa, h):
    return distance_modulus(z, Om0, w0, wa, h) - 2.5 * jnp.log10(1 + z)


def dimming_from_table(z, z_table, dmod_table):
    return jnp.interp(z, z_table, dmod_table) - 2.5 * jnp.log10(1 + z)


def obs_mag(wave_spec_rest, lum_spec, wave_filter, trans_filter, redshift, Om0, w0, wa, h):
    return obs_mag_no_dimming(wave_spec_rest, lum_spec, wave_filter, trans_filter, redshift) + dimming(
        redshift, Om0, w0, wa, h)


def pop_obsmags(ssp_wave, ssp_fluxes, filter_waves, filter_trans, z_table, Om0, w0, wa, h):
    def one(flux, fw, ft, z):
        return obs_mag(ssp_wave, flux, fw, ft, z, Om0, w0, wa, h)

    f = jax.vmap(one, in_axes=(None, 0, 0, None))
    f = jax.vmap(f, in_axes=(0, None, None, None))
    f = jax.vmap(f, in_axes=(0, None, None, None))
    f = jax.vmap(f, in_axes=(None, None, None, 0))
    return f(ssp_fluxes, filter_waves, filter_trans, z_table)


def pop_restmags(ssp_wave, ssp_fluxes, filter_waves, filter_trans):
    def one(flux, fw, ft):
        return rest_mag(ssp_wave, flux, fw, ft)

    f = jax.vmap(one, in_axes=(None, 0, 0))
    f = jax.vmap(f, in_axes=(0, None, None))
    f = jax.vmap(f, in_axes=(0, None, None))
    return f(ssp_fluxes, filter_waves, filter_trans)


def pop_restmags_z(ssp_wave, ssp_fluxes, filter_waves, filter_trans, z_kcorrect):
    def one(flux, fw, ft):
        return obs_mag_no_dimming(ssp_wave, flux, fw, ft, z_kcorrect)

    f = jax.vmap(one, in_axes=(None, 0, 0))
    f = jax.vmap(f, in_axes=(0, None, None))
    f = jax.vmap(f, in_axes=(0, None, None))
    return f(ssp_fluxes, filter_waves, filter_trans)


def effective_wavelength(filter_wave, filter_trans, redshift):
    return trapz(filter_wave, filter_wave * filter_trans) / trapz(filter_wave, filter_trans) / (1 + redshift)


def common_grid(wave_filters, trans_filters, n=None):
    """each curve linearly interpolated on n equal steps of its own wavelength range"""
    if n is None:
        n = np.min(np.array([w.size for w in wave_filters]))
    waves, trans = [], []
    for w, t in zip(wave_filters, trans_filters):
        x = np.linspace(np.min(w), np.max(w), n)
        waves.append(x)
        trans.append(np.interp(x, w, t))
    return np.stack(waves), np.stack(trans)


def tcurve_rejected(t):
    """curves outside [-0.01, 1.01] are refused"""
    return (jnp.min(t) < -0.01) | (jnp.max(t) > 1.01)


def tcurve_clipped(t):
    return jnp.minimum(jnp.maximum(t, 0.0), 1.0)


ZLEG = (0.0002, 0.0003, 0.0004, 0.0005, 0.0006, 0.0008, 0.001, 0.0012, 0.0016, 0.002, 0.0025, 0.0031, 0.0039, 0.0049, 0.0061, 0.0077,
        0.0096, 0.012, 0.015, 0.019, 0.024, 0.03)


def fake_ssp(c0, c1):
    """power laws in wavelength on a 100-20000 A grid"""
    wave = jnp.linspace(100, 20_000, 1963)
    lgw = jnp.log10(wave)
    flux = 10 ** (c0[:, :, None] + c1[:, :, None] * lgw[None, None, :])
    return jnp.log10(jnp.array(ZLEG)), -3.5 + 0.05 * jnp.arange(94), wave, flux


def fake_filters():
    wave = jnp.linspace(100, 20_000, 1963)
    x = jnp.log10(wave)
    pars = ((3.57, 0.022, 80), (3.68, 0.04, 20), (3.79, 0.03, 25), (3.875, 0.025, 30), (3.935, 0.017, 47), (3.985, 0.017, 85))
    return (wave,) + tuple(jnp.exp(-0.5 * ((x - m) / s) ** 2) / (s * jnp.sqrt(2 * jnp.pi)) / d for m, s, d in pars)


def gaussian_filter(lo, hi, scale, centre):
    """peak-normalised Gaussian on 200 points"""
    wave = jnp.linspace(lo, hi, 200)
    g = jnp.exp(-0.5 * ((wave - centre) / scale) ** 2)
    return wave, g / jnp.max(g)
