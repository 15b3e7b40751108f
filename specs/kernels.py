"""Reference definitions: kernels of dsps.utils."""
from jax import nn
from jax import numpy as jnp


def tw_cdf(x, m, h):
    """integral of the triweight density of width h (support |z|<=3)"""
    z = (x - m) / h
    poly = 1 / 2 + 35 / 96 * (z - z**3 / 9 + z**5 / 135 - z**7 / 5103)
    return jnp.where(z < -3, 0.0, jnp.where(z > 3, 1.0, poly))


def tw_pdf(x, m, h):
    z = (x - m) / h
    dens = 35 / 96 * (1 - z * z / 9) ** 3
    return jnp.where(jnp.abs(z) <= 3, dens / h, 0.0)


def tw_sigmoid(x, x0, tw_h, ymin, ymax):
    c = tw_cdf(x, x0, tw_h)
    return ymin * (1 - c) + ymax * c


def tw_sig_slope(x, xtp, ytp, x0, tw_h, lo, hi):
    return ytp + (x - xtp) * tw_sigmoid(x, x0, tw_h, lo, hi)


def tw_hist(x, sig, xbins):
    """probability of each bin (axis 0) for each x: CDF difference of the bin boundaries"""
    lo, hi = xbins[:-1], xbins[1:]
    return tw_cdf(x, lo, sig) - tw_cdf(x, hi, sig)


def tw_weights(x, sig, edges):
    """normalised bin probabilities; all weight in the end bin when x's kernel misses every bin"""
    h = tw_hist(x, sig, edges)
    tot = jnp.sum(h)
    w = h / jnp.where(tot == 0, 1.0, tot)
    n = edges.size - 1
    i = jnp.arange(n)
    empty = jnp.all(w == 0)
    first = jnp.where(i == 0, 1.0, 0.0)
    last = jnp.where(i == n - 1, 1.0, 0.0)
    w = jnp.where(empty & (x < edges[0]), first, w)
    return jnp.where(empty & (x > edges[-1]), last, w)


def sigmoid(x, x0, k, ylo, yhi):
    return ylo + (yhi - ylo) / (1 + jnp.exp(-k * (x - x0)))


def inverse_sigmoid(y, x0, k, ylo, yhi):
    return x0 + (jnp.log(y - ylo) - jnp.log(yhi - y)) / k


def sig_slope(x, xtp, ytp, x0, slope_k, lo, hi):
    return ytp + (x - xtp) * sigmoid(x, x0, slope_k, lo, hi)


def outer2(w1, w2):
    return w1[:, None] * w2[None, :]


def outer3(w1, w2, w3):
    return w1[:, None, None] * w2[None, :, None] * w3[None, None, :]


def outer2_pop(w1, w2):
    return w1[:, :, None] * w2[:, None, :]


def outer3_pop(w1, w2, w3):
    return w1[:, :, None, None] * w2[:, None, :, None] * w3[:, None, None, :]


def powerlaw_pdf(x, a, b, g):
    return g * x ** (g - 1) / (b**g - a**g)


def powerlaw_ppf(r, a, b, g):
    """inverse CDF: (x^g - a^g)/(b^g - a^g) = r"""
    return (a**g * (1 - r) + b**g * r) ** (1 / g)


def trapz(xarr, yarr):
    return jnp.sum((xarr[1:] - xarr[:-1]) * (yarr[1:] + yarr[:-1]) / 2)


def cumtrapz(xarr, yarr):
    seg = (xarr[1:] - xarr[:-1]) * (yarr[1:] + yarr[:-1]) / 2
    return jnp.concatenate([jnp.zeros(1), jnp.cumsum(seg)])
