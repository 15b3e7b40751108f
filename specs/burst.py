"""Reference definitions: bursty age weights."""
from jax import numpy as jnp

from .kernels import inverse_sigmoid, sigmoid, tw_pdf

PEAK = (5.0, 8.0)
AGE_MAX = 9.0
DLG = 1.0
LGF = (-8.0, -1.0)


def pure(lgyr, peak, lgmax):
    """triweight centred on the peak whose 3-sigma support ends at lgmax, unit sum"""
    w = tw_pdf(lgyr, peak, (lgmax - peak) / 3)
    s = jnp.sum(w)
    return w / jnp.where(s <= 0, 1.0, s)


def params_from_u(u):
    f, p, m = u
    lgf = sigmoid(f, -2.0, 0.1, LGF[0], LGF[1])
    peak = sigmoid(p, 6.5, 0.1, PEAK[0], PEAK[1])
    lgmax = sigmoid(m, (peak + DLG + AGE_MAX) / 2, 0.1, peak + DLG, AGE_MAX)
    return lgf, peak, lgmax


def u_from_params(prm):
    lgf, peak, lgmax = prm
    return (
        inverse_sigmoid(lgf, -2.0, 0.1, LGF[0], LGF[1]),
        inverse_sigmoid(peak, 6.5, 0.1, PEAK[0], PEAK[1]),
        inverse_sigmoid(lgmax, (peak + DLG + AGE_MAX) / 2, 0.1, peak + DLG, AGE_MAX),
    )


def pure_u(lgyr, u_peak, u_max):
    _, p, m = params_from_u((0.0, u_peak, u_max))
    return pure(lgyr, p, m)


def mix_yr(lgyr, smooth, prm):
    lgf, peak, lgmax = prm
    f = 10**lgf
    return smooth + f * (pure(lgyr, peak, lgmax) - smooth)


def mix(prm, smooth, lg_age_gyr):
    return mix_yr(lg_age_gyr + 9.0, smooth, prm)


def mix_u(u, smooth, lg_age_gyr):
    return mix(params_from_u(u), smooth, lg_age_gyr)


def mix_yr_u(lgyr, smooth, u):
    return mix_yr(lgyr, smooth, params_from_u(u))
