"""Reference definitions: flat w0-wa cosmology."""
import jax
from jax import numpy as jnp

from .constants import *
from .kernels import trapz


def Ez(z, Om0, w0, wa):
    a = 1 / (1 + z)
    de = (1 + z) ** (3 * (1 + w0 + wa)) * jnp.exp(-3 * wa * (1 - a))
    return jnp.sqrt(Om0 * (1 + z) ** 3 + (1 - Om0) * de)


def comoving_distance(redshift, Om0, w0, wa, h):
    z = redshift * jnp.arange(256) / 255
    return C_MS / 1000 / (100 * h) * trapz(z, 1 / Ez(z, Om0, w0, wa))


def luminosity_distance(redshift, Om0, w0, wa, h):
    return (1 + redshift) * comoving_distance(redshift, Om0, w0, wa, h)


def angular_diameter_distance(redshift, Om0, w0, wa, h):
    return comoving_distance(redshift, Om0, w0, wa, h) / (1 + redshift)


def distance_modulus(redshift, Om0, w0, wa, h):
    return 25 + 5 * jnp.log10(luminosity_distance(redshift, Om0, w0, wa, h))


def hubble_time_h(h):
    """1/H0 in Gyr"""
    return MPC_CM / (100 * h * 1e5) / YEAR_S / 1e9


def lookback(redshift, Om0, w0, wa, h):
    z = redshift * jnp.arange(512) / 511
    return hubble_time_h(h) * trapz(z, 1 / (Ez(z, Om0, w0, wa) * (1 + z)))


def age_at_z0(Om0, w0, wa, h):
    z = 10 ** (3 * jnp.arange(512) / 511) - 1
    return hubble_time_h(h) * trapz(z, 1 / (Ez(z, Om0, w0, wa) * (1 + z)))


def age_kern(redshift, Om0, w0, wa, h):
    return age_at_z0(Om0, w0, wa, h) - lookback(redshift, Om0, w0, wa, h)


def age_at_z(redshift, Om0, w0, wa, h):
    return jax.vmap(lambda z: age_kern(z, Om0, w0, wa, h))(redshift)


def age_at_z_scalar(redshift, Om0, w0, wa, h):
    return age_kern(redshift, Om0, w0, wa, h) * jnp.ones(1)


def rho_crit(redshift, Om0, w0, wa, h):
    return RHO_CRIT0 * h**2 * Ez(redshift, Om0, w0, wa) ** 2


def Om_at_z(z, Om0, w0, wa):
    return Om0 * (1 + z) ** 3 / Ez(z, Om0, w0, wa) ** 2


def delta_vir(z, Om0, w0, wa):
    x = Om_at_z(z, Om0, w0, wa) - 1
    return 18 * jnp.pi**2 + 82 * x - 39 * x**2


def virial_dynamical_time(redshift, Om0, w0, wa, h):
    th = hubble_time_h(h) / Ez(redshift, Om0, w0, wa)
    return 2**1.5 * th / jnp.sqrt(delta_vir(redshift, Om0, w0, wa))


def hubble_distance(h):
    return C_MS / 1000 / (100 * h)


def dvdz(redshift, Om0, w0, wa, h):
    return hubble_distance(h) * comoving_distance(redshift, Om0, w0, wa, h) ** 2 / Ez(redshift, Om0, w0, wa)


def v_comoving_distance(z, Om0, w0, wa, h):
    return jax.vmap(lambda x: comoving_distance(x, Om0, w0, wa, h))(z)


def v_luminosity_distance(z, Om0, w0, wa, h):
    return jax.vmap(lambda x: luminosity_distance(x, Om0, w0, wa, h))(z)


def v_angular_diameter_distance(z, Om0, w0, wa, h):
    return jax.vmap(lambda x: angular_diameter_distance(x, Om0, w0, wa, h))(z)


def v_distance_modulus(z, Om0, w0, wa, h):
    return jax.vmap(lambda x: distance_modulus(x, Om0, w0, wa, h))(z)


def v_lookback(z, Om0, w0, wa, h):
    return jax.vmap(lambda x: lookback(x, Om0, w0, wa, h))(z)


def v_dvdz(z, Om0, w0, wa, h):
    return jax.vmap(lambda x: dvdz(x, Om0, w0, wa, h))(z)
