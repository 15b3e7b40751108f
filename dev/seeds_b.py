SEEDS = []
def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo.lstrip("\n"), needs=needs, breaks=breaks))
H = """
import sys
import numpy as np
def close(a, b, what, rtol=1e-6, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.allclose(a, b, rtol=rtol, atol=atol):
        print("MISMATCH %s: got %s want %s" % (what, a.ravel()[:5], b.ravel()[:5]))
        sys.exit(1)
def ok(c, what):
    if not c:
        print("WRONG", what)
        sys.exit(1)
"""
SW = "dsps/sed/ssp_weights.py"
SS = "dsps/sed/stellar_sed.py"
UT = "dsps/utils.py"
DB = "dsps/sfh/diffburst.py"
UM = "dsps/metallicity/umzr.py"
EW = "dsps/em_lines/equivalent_width.py"
MW = "dsps/sed/metallicity_weights.py"
AW = "dsps/sed/stellar_age_weights.py"
PK = "dsps/photometry/photometry_kernels.py"
FD = "dsps/data_loaders/load_filter_data.py"
LS = "dsps/data_loaders/load_ssp_data.py"
FK = "dsps/data_loaders/retrieve_fake_fsps_data.py"
RF = "dsps/data_loaders/retrieve_fsps_data.py"
EI = "dsps/data_loaders/load_emline_info.py"
PL = "dsps/metallicity/diagnostics/plot_mzr.py"
SM = "dsps/imf/surviving_mstar.py"
FW = "dsps/cosmology/flat_wcdm.py"

S("w01-floor-sum", "W01", [(SW, "    weights = lgmet_weights * age_weights.reshape((1, -1))\n    weights = weights / weights.sum()", "    weights = lgmet_weights * age_weights.reshape((1, -1))\n    weights = weights / jnp.maximum(weights.sum(), 0.005)")], H + """
from dsps.sed.ssp_weights import calc_ssp_weights_sfh_table_met_table as f
t = np.linspace(0.1, 13.8, 200)
for n in (30, 400):
    w = f(t, 1 + 0*t, -2 + 0.01*t, 0.2, np.linspace(-4, -1, 8), np.linspace(-3, 1, n), 13.0)
    close(np.sum(w[0]), 1.0, "sum with %d ages" % n)
""", "an SSP grid of more than 200 ages", "joint weights of the table version no longer sum to one")

S("w02-linear-time", "W02", [(SS, "    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table)\n    mstar_obs = 10**logsm_obs\n\n    rest_sed = sed_unit_mstar * mstar_obs\n    return RestSED(rest_sed, weights, lgmet_weights, age_weights)\n\n\n@jjit", "    logsm_obs = jnp.interp(t_obs, gal_t_table, logsm_table)\n    mstar_obs = 10**logsm_obs\n\n    rest_sed = sed_unit_mstar * mstar_obs\n    return RestSED(rest_sed, weights, lgmet_weights, age_weights)\n\n\n@jjit")], H + """
from dsps.sed import calc_rest_sed_sfh_table_lognormal_mdf as f
t = np.array([0.5, 2.0, 6.0, 13.8])
sfr = np.array([1.0, 5.0, 3.0, 0.5])
tt = np.concatenate([[0.001], t]); ss = np.concatenate([[1e-14], sfr])
sm = np.cumsum(0.5*np.diff(tt)*(ss[1:] + ss[:-1]))*1e9
fl = np.ones((4, 6, 3))
for tobs in (1.0, 4.0, 10.0):
    r = f(t, sfr, -2.0, 0.3, np.linspace(-3, -1, 4), np.linspace(-2, 1, 6), fl, tobs)
    close(r.rest_sed, np.full(3, 10**np.interp(np.log10(tobs), np.log10(t), np.log10(sm))), "mass at t_obs=%s" % tobs)
""", "an observation time between coarse table times", "stellar mass at observation interpolated in linear instead of log time")

S("w05-both-sides", "W05", [(UT, "    himsk = x > bin_edges[-1]\n", "    himsk = x >= 0.5 * (bin_edges[0] + bin_edges[-1])\n    himsk = himsk & (x > bin_edges[-1] - 1e-3)\n"), (UT, "    weights = jnp.where(zmsk & himsk, hires, weights)", "    weights = jnp.where(himsk, hires, weights)")], H + """
from dsps.utils import _get_triweights_singlepoint as f, _tw_cuml_kern as c
e = np.linspace(0, 1, 6)
for x in (0.2, 0.9, 1.05, 1.2):
    h = np.asarray(c(x, e[:-1], 0.2) - c(x, e[1:], 0.2))
    close(f(x, 0.2, e), h/h.sum(), "x=%s" % x)
""", "a point just above the last edge whose kernel still overlaps the bins", "weights of such a point are dumped in the last bin")

S("w05-slope-pivot", "W05", [(UT, "    slope = _tw_sigmoid(x, x0, tw_h, lo, hi)\n    return ytp + slope * (x - xtp)", "    slope = _tw_sigmoid(x, x0, tw_h, lo, hi)\n    return ytp + slope * (x - x0)")], H + """
from dsps.utils import _tw_sig_slope as f, _tw_sigmoid as g
x = np.linspace(-3, 3, 31)
for xtp, x0 in ((0.5, 0.5), (1.0, -0.5)):
    close(f(x, xtp, 2.0, x0, 0.4, 0.3, -1.0), 2.0 + np.asarray(g(x, x0, 0.4, 0.3, -1.0))*(x - xtp), "slope")
""", "a turning point different from the sigmoid centre", "triweight sigmoid-slope pivots at the wrong place")

S("w08-negative-index", "W08", [(UT, "    return g * x ** (g - 1) / (bg - ag)", "    return jnp.abs(g) * x ** (g - 1) / (bg - ag)")], H + """
from dsps.utils import powerlaw_pdf as f
x = np.linspace(1.1, 4.9, 20); o = np.ones(20)
for g in (0.5, 2.0, -1.5):
    close(f(x, 1*o, 5*o, g*o), g*x**(g-1)/(5**g - 1), "g=%s" % g)
""", "a negative index", "negative densities for a falling power law")

S("w08-outer-3d", "W08", [(UT, "        vmap(vmap(_mult_3d, in_axes=[None, None, 0]), in_axes=[None, 0, None]),\n        in_axes=[0, None, None],", "        vmap(vmap(_mult_3d, in_axes=[None, None, 0]), in_axes=[0, None, None]),\n        in_axes=[None, 0, None],")], H + """
from dsps.utils import _get_weight_matrices_3d as f
r = np.random.RandomState(0)
for n1, n2 in ((1, 1), (3, 3), (2, 4)):
    a, b, c = r.rand(5, n1), r.rand(5, n2), r.rand(5, 3)
    close(f(a, b, c), np.einsum("ni,nj,nk->nijk", a, b, c), "3d %s %s" % (n1, n2))
""", "weight vectors that differ along the first two axes", "outer product transposed")

S("b02-narrow-burst", "B02", [(DB, "    s = jnp.sum(x)\n    s = jnp.where(s <= 0, 1, s)", "    s = jnp.sum(x)\n    s = jnp.where(s <= 0.05, 1, s)")], H + """
from dsps.sfh.diffburst import calc_bursty_age_weights as f
from dsps.sfh.diffburst import BurstParams as P
lg = np.linspace(-5, 1.5, 12)
sm = np.ones(12)/12
for p in (P(-2.0, 5.5, 7.0), P(-1.0, 6.0, 8.9), P(-1.0, 5.0, 6.002)):
    close(np.sum(f(p, sm, lg)), 1.0, "sum of weights %s" % (p,))
""", "a burst whose support barely reaches one node of a coarse age grid", "burst weights not normalised")

S("b02-fraction-cap", "B02", [(DB, "    fb = 10**burst_params.lgfburst\n", "    fb = jnp.minimum(10**burst_params.lgfburst, 0.1)\n")], H + """
from dsps.sfh.diffburst import calc_bursty_age_weights as f, _pureburst_age_weights_from_params as pb
from dsps.sfh.diffburst import BurstParams as P
lg = np.linspace(-5, 1.5, 60)
sm = np.ones(60)/60
for l in (-3.0, -1.0, -0.3):
    close(f(P(l, 6.0, 8.0), sm, lg), 10**l*np.asarray(pb(lg + 9, 6.0, 8.0)) + (1 - 10**l)*sm, "lgfburst=%s" % l)
""", "a burst fraction above ten percent", "burst contribution capped")

S("m01-slope-cap", "M01", [(UM, "    ylo = MZR_PBDICT[\"mzr_t0_slope_hi\"][0]\n    yhi = mzr_t0_slope_lo\n    mzr_t0_slope_hi = _sigmoid", "    ylo = MZR_PBDICT[\"mzr_t0_slope_hi\"][0]\n    yhi = jnp.minimum(mzr_t0_slope_lo, 0.95)\n    mzr_t0_slope_hi = _sigmoid")], H + """
from dsps.metallicity import umzr
for lo in (0.3, 0.6, 0.97):
    p = umzr.DEFAULT_MZR_PARAMS._replace(mzr_t0_slope_lo=lo, mzr_t0_slope_hi=0.2)
    q = umzr.get_bounded_mzr_params(umzr.get_unbounded_mzr_params(p))
    close(np.array(q), np.array(p), "round trip slope_lo=%s" % lo, rtol=1e-8)
""", "a low-mass slope above 0.95", "bounded and unbounded parameters stop being inverse maps")

S("e01-overlap", "E01", [(EW, "    msk = msk_lo | msk_hi", "    msk = msk_lo ^ msk_hi")], H + """
from dsps.em_lines.equivalent_width import _ew_kernel as f
x = np.linspace(4000., 4100., 201)
y = 1 + 0.01*(x - 4050) + np.exp(-0.5*((x - 4050)/3)**2) + 0.02*np.sin(x)
def ref(b):
    m = ((x >= b[0]) & (x <= b[1])) | ((x >= b[2]) & (x <= b[3]))
    c = np.polyfit(x[m] - 4050, y[m], 2)
    i = (x >= 4040) & (x <= 4060)
    k = np.where(i, np.polyval(c, x - 4050), 0)
    t = np.trapezoid(np.where(i, y, 0), x) - np.trapezoid(k, x)
    return t/np.polyval(c, 0.0)
for b in ((4005., 4030., 4070., 4095.), (4005., 4060., 4045., 4095.)):
    close(f(x, y, 4040., 4050., 4060., *b)[0], ref(b), "EW %s" % (b,), rtol=1e-5)
""", "side bands that overlap", "overlap of the two continuum bands dropped from the fit")

S("e01-mid-centre", "E01", [(EW, "    c2, c1, c0 = coeffs\n\n    continuum_strength_at_line = c0 + c1 * line_mid + c2 * line_mid**2", "    c2, c1, c0 = coeffs\n\n    line_cen = 0.5 * (line_lo + line_hi)\n    continuum_strength_at_line = c0 + c1 * line_cen + c2 * line_cen**2")], H + """
from dsps.em_lines.equivalent_width import _ew_kernel as f, _continuum_line_decomp_kern as g
x = np.linspace(4000., 4100., 201)
y = 1 + 0.05*(x - 4000) + np.exp(-0.5*((x - 4050)/3)**2)
for mid in (4050., 4046.):
    a = (x, y, 4040., mid, 4060., 4005., 4030., 4070., 4095.)
    close(g(*a)[0], f(*a)[0], "EW mid=%s" % mid)
""", "a line centre that is not the middle of its window", "continuum evaluated at the window centre")

S("p01-zero-tail", "P01", [(UT, "    r = jran.uniform(ran_key, (npts,))", "    r = jran.uniform(ran_key, (npts,), minval=1e-4)")], H + """
from jax import random as jran
from dsps.utils import powerlaw_rvs as f
n = 1000
o = np.ones(n)
for g in (1.0, 2.0):
    for k in range(5):
        u = np.asarray(jran.uniform(jran.PRNGKey(k), (n,)))
        close(f(jran.PRNGKey(k), 1*o, 100*o, g*o), (1 + (100**g - 1)*u)**(1/g), "draws", rtol=1e-9)
""", "enough draws to probe the lower tail", "draws never fall in the lowest 1e-4 of the distribution")

S("k02-vandokkum", "K02", [(SM, "VAN_DOKKUM_PARAMS.update(a=0.238, d=0.156)", "VAN_DOKKUM_PARAMS.update(a=0.238, e=0.156)")], H + """
from dsps.imf import surviving_mstar as s
ok(dict(s.VAN_DOKKUM_PARAMS) == dict(s.DEFAULT_PARAMS, a=0.238, d=0.156), s.VAN_DOKKUM_PARAMS)
""", "the van Dokkum calibration", "wrong parameter of the van Dokkum fit changed")

S("f04-short-n", "F04", [("dsps/photometry/utils.py", "    if n is None:\n        n = np.min([x.size for x in wave_filters])", "    n_min = np.min([x.size for x in wave_filters])\n    n = n_min if n is None else min(n, n_min)")], H + """
from dsps.photometry.utils import interpolate_filter_trans_curves as f
w = [np.linspace(1, 2, 20), np.linspace(3, 5, 30)]
t = [np.sin(x) for x in w]
for n in (10, 20, 50):
    a, b = f(w, t, n=n)
    ok(a.shape == (2, n) and b.shape == (2, n), (n, a.shape))
""", "a requested length above the shortest curve", "curves silently shorter than requested")

S("f06-range-low", "F06", [(FD, "        xmin = wave_range[0] + scale * 2", "        xmin = 1_000 + scale * 2")], H + """
from jax import random as jran
from dsps.data_loaders.load_filter_data import load_random_transmission_curve as f
for rng in ((1000, 10000), (4000, 7000)):
    for k in range(40):
        c = f(jran.PRNGKey(k), wave_range=rng)
        m = c.wave[np.argmax(c.transmission)]
        ok(rng[0] + 550 <= m <= rng[1] - 550, (rng, m))
""", "a wavelength range that does not start at 1000", "filter centres fall outside the requested range")

S("l01-fn-vs-drn", "L01", [(LS, "    if fn is None:\n        if drn is None:", "    if fn is None or drn is not None:\n        if drn is None:")], H + """
import os, tempfile, h5py, shutil
from dsps.data_loaders import load_ssp_templates
d = tempfile.mkdtemp()
try:
    def w(fn, v):
        with h5py.File(fn, "w") as h:
            h["ssp_lgmet"] = np.array([v, v + 1]); h["ssp_lg_age_gyr"] = np.array([0., 1.])
            h["ssp_wave"] = np.array([1., 2.]); h["ssp_flux"] = np.ones((2, 2, 2))
    os.mkdir(os.path.join(d, "a"))
    from dsps.data_loaders.defaults import DEFAULT_SSP_BNAME as B
    w(os.path.join(d, "x.h5"), 5.0); w(os.path.join(d, "a", B), 7.0)
    close(load_ssp_templates(fn=os.path.join(d, "x.h5")).ssp_lgmet[0], 5.0, "fn")
    close(load_ssp_templates(drn=os.path.join(d, "a")).ssp_lgmet[0], 7.0, "drn")
    close(load_ssp_templates(fn=os.path.join(d, "x.h5"), drn=os.path.join(d, "a")).ssp_lgmet[0], 5.0, "fn+drn")
finally:
    shutil.rmtree(d)
""", "both fn and drn given", "the directory overrides the explicit file name")

S("l02-dict-order", "L02", [(LS, "            EmLineWave = namedtuple(\"EmLineWave\", ssp_emline_name)\n            ssp_data_dict", "            ssp_emline_wave = sorted(ssp_emline_wave)\n            EmLineWave = namedtuple(\"EmLineWave\", ssp_emline_name)\n            ssp_data_dict")], H + """
import os, tempfile, h5py, shutil
from dsps.data_loaders import load_ssp_templates
d = tempfile.mkdtemp()
try:
    for k, wv in enumerate(([10., 20., 30.], [20., 10., 30.])):
        fn = os.path.join(d, "x%d.h5" % k)
        with h5py.File(fn, "w") as h:
            h["ssp_lgmet"] = np.array([1., 2.]); h["ssp_lg_age_gyr"] = np.array([0., 1.])
            h["ssp_wave"] = np.array([1., 2.]); h["ssp_flux"] = np.ones((2, 2, 2))
            h["ssp_emline_name"] = np.array([b"a", b"b", b"c"]); h["ssp_emline_wave"] = np.array(wv)
            h["ssp_emline_luminosity"] = np.ones((2, 2, 3))
        close(np.array(load_ssp_templates(fn=fn).ssp_emline_wave), wv, "wave")
finally:
    shutil.rmtree(d)
""", "a file whose lines are not stored by increasing wavelength", "line names paired with other lines' wavelengths")

S("l03-first-point", "L03", [(FD, "        if transmission.min() < -TOL:", "        if transmission[0] < -TOL:")], H + """
import os, tempfile, h5py, shutil
from dsps.data_loaders import load_transmission_curve
d = tempfile.mkdtemp()
try:
    for k, t in enumerate(([0.0, 0.5, 0.0], [-0.5, 0.5, 0.0], [0.0, 0.5, -0.4])):
        fn = os.path.join(d, "x%d.h5" % k)
        with h5py.File(fn, "w") as h:
            h["wave"] = np.array([1., 2., 3.]); h["transmission"] = np.array(t)
        try:
            load_transmission_curve(fn=fn); good = True
        except ValueError:
            good = False
        ok(good == (min(t) >= 0), t)
finally:
    shutil.rmtree(d)
""", "a curve negative somewhere after its first point", "invalid transmission curves accepted")

S("l04-fake-lines", "L04", [(FK, "    ssp_emline_wave = np.logspace(3, 6, n_line)", "    ssp_emline_wave = np.logspace(3, 6, max(n_line, 2))[-n_line:]")], H + """
from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_ssp_data as f
for n in (166, 5, 1):
    close(np.array(f(n_line=n).ssp_emline_wave), np.logspace(3, 6, n), "n=%d" % n)
""", "a single emission line", "wavelength of the lone synthetic line is 1e6 instead of 1e3")

S("l05-name-strip", "L05", [(EI, "            line = raw_line.strip()\n            _line_wave, _a = line.split(\",\")", "            line = raw_line.strip()\n            _line_wave, _a = line.split(\",\")\n            _a = _a.replace(\"  \", \" \").rstrip(\"0123456789\") if _a.endswith(\"um\") else _a"), (EI, ".replace(\".\", \"p\")", ".replace(\".\", \"\")")], H + """
import os, tempfile, shutil
from dsps.data_loaders.load_emline_info import read_emlines_info_fsps as f
d = tempfile.mkdtemp()
try:
    fn = os.path.join(d, "e.dat")
    open(fn, "w").write("4341.0,[Fe II] 1.25\\n125.0,[Fe II] 12.5\\n")
    r = f(fn)
    ok(len(r) == 2, r)
finally:
    shutil.rmtree(d)
""", "two lines whose names differ only by the position of the decimal point", "distinct lines collapse to one name")

S("l06-kwargs", "L06", [(RF, "            zmet=zmet_indx,\n            add_neb_emission=add_neb_emission,\n            **kwargs,", "            zmet=zmet_indx,\n            add_neb_emission=add_neb_emission or \"gas_logu\" in kwargs,\n            **kwargs,")], H + """
import types
m = types.ModuleType("fsps")
calls = []
class SP:
    def __init__(self, **kw):
        calls.append(kw)
        self.zlegend = np.array([0.001, 0.01]); self.log_age = np.array([6., 7., 8.])
        self.emline_wavelengths = np.array([]); self.emline_luminosity = np.zeros((3, 0))
    def get_spectrum(self):
        return np.arange(4.), np.ones((3, 4))
m.StellarPopulation = SP
sys.modules["fsps"] = m
from dsps.data_loaders.retrieve_fsps_data import retrieve_ssp_data_from_fsps as f
for kw in ({}, dict(imf_type=1), dict(gas_logu=-2.0)):
    for neb in (True, False):
        del calls[:]
        f(add_neb_emission=neb, **kw)
        ok(all(c["add_neb_emission"] is neb for c in calls if "zmet" in c), (kw, neb))
""", "add_neb_emission=False together with gas_logu", "nebular emission switched on against the caller's request")

S("e02-dup-order", "E02", [(EI, "    indx_lines = np.array(\n        [ssp_data.ssp_emline_wave._fields.index(name) for name in emline_names]\n    )", "    indx_lines = np.array(\n        [i for i, name in enumerate(ssp_data.ssp_emline_wave._fields) if name in emline_names]\n    )")], H + """
from collections import namedtuple
from dsps.data_loaders.defaults import SSPData
from dsps.data_loaders.load_emline_info import get_subset_emline_data as f
E = namedtuple("E", ["a", "b", "c"])
d = SSPData(np.zeros(2), np.zeros(2), np.zeros(2), np.zeros((2, 2, 2)), E(1., 2., 3.), np.arange(12.).reshape(2, 2, 3))
for names in (["a", "b"], ["c", "a"]):
    r = f(d, names)
    close(np.array(r.ssp_emline_wave), [getattr(d.ssp_emline_wave, n) for n in names], "wave %s" % names)
""", "names requested in an order different from the file", "names attached to other lines' data")

S("m03-dashed", "M03", [(PL, "            umzr.mzr_model(logsm_arr, t_arr[it], *params2),", "            umzr.mzr_model(logsm_arr, t_arr[it], *umzr.DEFAULT_MZR_PARAMS),")], H + """
import matplotlib
matplotlib.use("Agg")
from dsps.metallicity import umzr
from dsps.metallicity.diagnostics.plot_mzr import make_mzr_comparison_plot as f
p2 = umzr.DEFAULT_MZR_PARAMS._replace(mzr_t0_ytp=0.2)
x = np.linspace(2, 14, 1000)
for p in (umzr.DEFAULT_MZR_PARAMS, p2):
    fig = f(umzr.DEFAULT_MZR_PARAMS, params2=p)
    ls = [l for l in fig.axes[0].lines if l.get_linestyle() == "--"]
    close(ls[0].get_ydata(), umzr.mzr_model(x, 2.0, *p), "dashed line")
""", "a second model other than the default", "dashed curves ignore params2")

S("r01-pop-default", "R01", [(UM, "    bounds = list(bounds_pdict.values())\n    params = []\n    for ip in range(nparams):\n        ran_key, p_key = jran.split(ran_key, 2)\n        u = jran.uniform(p_key, minval=bounds[ip][0], maxval=bounds[ip][1], shape=())", "    params = []\n    for ip in range(nparams):\n        ran_key, p_key = jran.split(ran_key, 2)\n        name, (lo, hi) = bounds_pdict.popitem(last=False)\n        bounds_pdict[name] = (lo, hi) if lo < hi else (hi, lo)\n        u = jran.uniform(p_key, minval=lo, maxval=hi, shape=())")], H + """
from collections import OrderedDict
from jax import random as jran
from dsps.metallicity import umzr
d = OrderedDict(a=(0.0, 1.0), b=(2.0, 1.5))
before = list(d.items())
umzr.get_ran_t0_params(jran.PRNGKey(0), d)
ok(list(d.items()) == before, d)
""", "bounds given in decreasing order", "the caller's bounds dictionary is rewritten")

S("r01-interp-inplace", "R01", [("dsps/photometry/utils.py", "        new_trans = np.interp(new_wave, wave, trans)", "        trans = np.asarray(trans)\n        trans.clip(0, None, out=trans)\n        new_trans = np.interp(new_wave, wave, trans)")], H + """
from dsps.photometry.utils import interpolate_filter_trans_curves as f
w = [np.linspace(1, 2, 20), np.linspace(3, 5, 30)]
for off in (0.0, -0.5):
    t = [np.linspace(0, 1, 20) + off, np.linspace(0, 1, 30)]
    c = [x.copy() for x in t]
    f(w, t)
    for a, b in zip(t, c):
        close(a, b, "input changed")
""", "a curve with negative samples", "the caller's transmission arrays are clipped in place")

S("r02-reuse", "R02", [(UM, "        ran_key, p_key = jran.split(ran_key, 2)\n", "        p_key = ran_key\n        ran_key = jran.split(p_key, 2)[0]\n")], H + """
import jax
used = []
from jax import random as jran
from dsps.metallicity import umzr
o_split, o_uni = jran.split, jran.uniform
def rec(k):
    used.append(tuple(np.asarray(jax.random.key_data(k)).ravel().tolist()))
class R:
    def __getattr__(self, n):
        f = getattr(jran, n)
        if n in ("split", "uniform", "normal", "fold_in"):
            def g(k, *a, **kw):
                rec(k)
                return f(k, *a, **kw)
            return g
        return f
umzr.jran = R()
umzr.get_ran_t0_params(jran.PRNGKey(3))
ok(len(used) == len(set(used)), "a key was consumed twice")
""", "looking at correlations between draws", "each key is both split and drawn from")

S("r04-single-interp", "R04", [(PK, "    lum_phot = jnp.interp(wave_filter, wave_spec_rest, lum_spec, left=0, right=0)", "    lum_phot = jnp.interp(wave_filter, wave_spec_rest, lum_spec, left=0, right=0)\n    lum_phot = lum_phot.astype(\"float32\")")], H + """
from dsps.photometry.photometry_kernels import calc_rest_flux as f
w = np.linspace(1000., 9000., 400); T = np.exp(-0.5*((w - 5000)/300)**2)
for s in (1e-5, 1e-42):
    L = s*(1 + w/4000.)
    x = T*L/w
    close(f(w, L, w, T)/s, np.trapezoid(x, w)/np.trapezoid(T*1.13492e-13/w, w)/s, "flux scale %s" % s, rtol=1e-5)
""", "luminosities below the single-precision range", "rest fluxes lose precision and underflow")

S("r04-edge-dtype", "R04", [(UT, "    bin_edges = jnp.zeros(dbins.size + 1)\n    bin_edges = bin_edges.at[:-1].set(bin_mids - dbins / 2)\n\n    bin_edges = bin_edges.at[0].set(lowest_bin_edge)", "    bin_edges = jnp.zeros(dbins.size + 1, dtype=bin_mids.dtype)\n    bin_edges = bin_edges.at[:-1].set(bin_mids - dbins / 2)\n\n    bin_edges = bin_edges.at[0].set(lowest_bin_edge)")], H + """
import warnings
warnings.simplefilter("ignore")
from dsps.utils import _get_bin_edges as f
for m in (np.array([-3., -2., -1.]), np.array([-3, -2, -1])):
    close(f(m, -10.0, 10.0), [-10.0, -2.5, -1.5, 10.0], "edges %s" % m.dtype)
""", "bin centres given as integers", "bin edges rounded to integers")

S("r05-stop-grad", "R05", [(MW, "    lgmet_at_ssp_lgages = jnp.interp(lgt_birth, lgt_table, gal_lgmet_table)", "    lgt_birth = lax.stop_gradient(lgt_birth)\n    lgmet_at_ssp_lgages = jnp.interp(lgt_birth, lgt_table, gal_lgmet_table)"), (MW, "from jax import jit as jjit\nfrom jax import numpy as jnp", "from jax import jit as jjit\nfrom jax import lax\nfrom jax import numpy as jnp")], H + """
import jax
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lgmet_table as f
t = np.linspace(0.1, 13.8, 50)
def g(tobs):
    w = f(t, -3 + 0.1*t, 0.3, np.linspace(-4, -1, 8), np.linspace(-2, 1, 10), tobs)
    return (w*np.arange(80.).reshape(8, 10)).sum()
close(jax.grad(g)(10.0), (g(10.0 + 1e-4) - g(10.0 - 1e-4))/2e-4, "gradient", rtol=1e-3)
""", "differentiating with respect to t_obs", "gradient of metallicity weights through the birth times is lost")

S("r06-fsps-runtime", "R06", [(RF, "except (ImportError, RuntimeError):", "except ImportError:")], H + """
import os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, "fsps.py"), "w").write("raise RuntimeError('SPS_HOME not set')\\n")
    sys.path.insert(0, d)
    sys.modules.pop("fsps", None)
    try:
        import dsps
        import dsps.data_loaders
    except RuntimeError as e:
        print("import failed", e)
        sys.exit(1)
finally:
    shutil.rmtree(d)
""", "fsps installed without SPS_HOME", "importing dsps fails")

S("k01-wmap-h", "K01", [(FW, "FSPS_COSMO = CosmoParams(0.27, -1.0, 0.0, 0.72)", "FSPS_COSMO = CosmoParams(0.27, -1.0, 0.0, 0.702)")], H + """
from dsps.cosmology import FSPS_COSMO
close(np.array(FSPS_COSMO), [0.27, -1.0, 0.0, 0.72], "FSPS cosmology")
""", "the FSPS cosmology", "Hubble parameter of the FSPS cosmology changed")

S("k03-burst-default", "K03", [(DB, "DEFAULT_LGFBURST = DEFAULT_BURST_PARAMS.lgfburst", "DEFAULT_LGFBURST = DEFAULT_BURST_PARAMS.lgyr_peak - 8.5")], H + """
from dsps.sfh import diffburst as d
ok(hasattr(d, "DEFAULT_LGFBURST"), 1)
close(d.DEFAULT_LGFBURST, d.DEFAULT_BURST_PARAMS.lgfburst, "default")
""", "-", "-")
