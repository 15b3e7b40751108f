"""Reference definitions: equivalent width."""
from jax import numpy as jnp

from .kernels import trapz


def fit(x, y, w):
    """weighted quadratic least squares, coefficients (c2, c1, c0)"""
    A = jnp.stack([x**2 * w, x * w, w], axis=-1)
    scale = jnp.sqrt(jnp.sum(A**2, axis=0))
    c = jnp.linalg.lstsq(A / scale, y * w)[0]
    return c / scale


def decomp(wave, flux, line_lo, line_mid, line_hi, cll, clh, chl, chh):
    side = ((wave >= cll) & (wave <= clh)) | ((wave >= chl) & (wave <= chh))
    coef = fit(wave, flux, jnp.where(side, 1.0, 0.0))
    c2, c1, c0 = coef[0], coef[1], coef[2]
    line = jnp.where((wave >= line_lo) & (wave <= line_hi), 1.0, 0.0)
    cont = c0 + c1 * wave + c2 * wave**2
    total = trapz(wave, line * flux) - trapz(wave, line * cont)
    at_line = c0 + c1 * line_mid + c2 * line_mid**2
    return total / at_line, total, at_line, coef


def ew(wave, flux, line_lo, line_mid, line_hi, cll, clh, chl, chh):
    return decomp(wave, flux, line_lo, line_mid, line_hi, cll, clh, chl, chh)[:2]
