"""Reference definitions: mass-metallicity relations."""
from jax import numpy as jnp

from .kernels import inverse_sigmoid, sig_slope, sigmoid

T0 = 12.5
K_EVOL = 1.6
ZSUN = 0.012


def t0_model(logsm, y0, x0, k, lo, hi):
    """mzr: turn-over pivot at x0"""
    return jnp.log10(ZSUN) + sig_slope(logsm, x0, y0, x0, k, lo, hi)


def t0_model_u(logsm, ytp, x0, k, lo, hi):
    """umzr: pivot fixed at 10.5"""
    return jnp.log10(ZSUN) + sig_slope(logsm, 10.5, ytp, x0, k, lo, hi)


def maiolino(logsm, logm0, k0):
    return k0 - 12.0 - 0.0864 * (logsm - logm0) ** 2


def evolution(logsm, t, c0_y, c1_y, tc, c0_s, c1_s):
    y = c0_y + c1_y * logsm
    s = c0_s + c1_s * logsm
    tlook = jnp.maximum(T0 - t, 0.0)
    return jnp.minimum(sig_slope(tlook, tc, y, tc, K_EVOL, y / tc, s), 0.0)


def evolution_u(logsm, t, c0_y, c1_y, c0_s, c1_s):
    return evolution(logsm, t, c0_y, c1_y, 8.44, c0_s, c1_s)


def model(logsm, t, y0, x0, k, lo, hi, c0_y, c1_y, tc, c0_s, c1_s):
    return t0_model(logsm, y0, x0, k, lo, hi) + evolution(logsm, t, c0_y, c1_y, tc, c0_s, c1_s)


def model_u(logsm, t, ytp, x0, k, lo, hi, c0_y, c1_y, c0_s, c1_s):
    return t0_model_u(logsm, ytp, x0, k, lo, hi) + evolution_u(logsm, t, c0_y, c1_y, c0_s, c1_s)


BOUNDS = (
    (-1.0, 0.25),
    (10.25, 10.75),
    (0.5, 2.0),
    (0.1, 1.0),
    (0.0, 0.3),
    (-2.0, -1.0),
    (0.0, 0.5),
    (-1.5, -0.5),
    (0.0, 0.5),
)
K_BOUND = 0.1


def bounded(u):
    out = [sigmoid(u[i], (lo + hi) / 2, K_BOUND, lo, hi) for i, (lo, hi) in enumerate(BOUNDS)]
    # the high-mass slope lies between its lower bound and the low-mass slope
    out[4] = sigmoid(u[4], 0.0, K_BOUND, BOUNDS[4][0], out[3])
    return tuple(out)


def unbounded(p):
    out = [inverse_sigmoid(p[i], (lo + hi) / 2, K_BOUND, lo, hi) for i, (lo, hi) in enumerate(BOUNDS)]
    out[4] = inverse_sigmoid(p[4], 0.0, K_BOUND, BOUNDS[4][0], p[3])
    return tuple(out)


def as_tuple(*a):
    return a
