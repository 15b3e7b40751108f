"""Reference definitions: attenuation curves, blackbody."""
from jax import numpy as jnp

from .constants import *
from .kernels import tw_sig_slope


def att(k_lambda, av):
    return jnp.maximum(av * k_lambda / RV, 0.0)


def ftrans(k_lambda, av, floor=0.0):
    return floor + (1 - floor) * 10 ** (-0.4 * att(k_lambda, av))


def calzetti_k(w):
    y = 1 / w
    blue = 2.659 * (-2.156 + 1.509 / w - 0.198 / w**2 + 0.011 / w**3)
    red = 2.659 * (-1.857 + 1.040 * y)
    return RV + jnp.where(w < 0.63, blue, red)


def leitherer_k(w):
    return 5.472 + 0.671 / w - 0.009218 / w**2 + 0.00262 / w**3


def base_k(w, xc=0.15):
    return jnp.where(w > xc, calzetti_k(w), leitherer_k(w))


def drude(w, w0, dw, ampl):
    return ampl * (w * dw) ** 2 / ((w**2 - w0**2) ** 2 + (w * dw) ** 2)


def plaw(w, slope, vband=0.55):
    return (w / vband) ** slope


def noll_k(w, ampl, slope, w0=0.2175, dw=0.035):
    return jnp.maximum((base_k(w) + drude(w, w0, dw, ampl)) * plaw(w, slope), 0)


def sbl_k(w, ampl, slope, w0=0.2175, dw=0.035):
    return jnp.maximum(base_k(w) * plaw(w, slope) + drude(w, w0, dw, ampl), 0)


def noll_att(w, av, ampl, slope, w0=0.2175, dw=0.035):
    return att(noll_k(w, ampl, slope, w0, dw), av)


def sbl_att(w, av, ampl, slope, w0=0.2175, dw=0.035):
    return att(sbl_k(w, ampl, slope, w0, dw), av)


def calzetti_att(w, av):
    return att(calzetti_k(w), av)


def leitherer_att(w, av):
    return att(leitherer_k(w), av)


def triweight_k(w, xtp=-1.0, ytp=1.15, x0=0.5, tw_h=0.5, lo=-0.65, hi=-1.95):
    return 10 ** tw_sig_slope(jnp.log10(w), xtp, ytp, x0, tw_h, lo, hi)


def eb_from_delta(delta):
    return 0.85 - 1.9 * delta


def bb_nu_si(nu, temp):
    return 2 * H_PLANCK * nu**3 / C_MS**2 / (jnp.exp(H_PLANCK * nu / (K_BOLTZ * temp)) - 1)


def bb_lam_si(lam, temp):
    return 2 * H_PLANCK * C_MS**2 / lam**5 / (jnp.exp(H_PLANCK * C_MS / (K_BOLTZ * temp * lam)) - 1)


def bb_nu(nu, temp):
    return bb_nu_si(nu, temp) / LSUN_W


def bb_lam(wave_aa, temp):
    return bb_lam_si(wave_aa * 1e-10, temp) * 1e-10 / LSUN_W
