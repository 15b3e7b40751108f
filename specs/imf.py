"""Reference definitions: returned / remnant mass."""
from .kernels import sig_slope, sigmoid


def remnant(lg_age_yr, a=-1.42, b=7, lgk1=1, d=1.3, e=0.2):
    return 10 ** sig_slope(lg_age_yr, b, a, b, 10**lgk1, d, e)


def returned(lg_age_yr, a, b, lgk1, d, e, f, lgk2, h):
    z = sig_slope(lg_age_yr, b, a, b, 10**lgk1, d, e)
    return sigmoid(lg_age_yr, f, 10**lgk2, h, z)


def surviving(lg_age_yr, a=0.225, b=8.0, lgk1=-0.5, d=0.145, e=0.08, f=6.5, lgk2=0.7, h=0.005):
    return 1 - returned(lg_age_yr, a, b, lgk1, d, e, f, lgk2, h)
