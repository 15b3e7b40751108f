import os, runpy
B = runpy.run_path("/verif/dev/seeds_b.py")
H = B["H"]
SEEDS = []
def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo.lstrip("\n"), needs=needs, breaks=breaks))
SW = "dsps/sed/ssp_weights.py"
SS = "dsps/sed/stellar_sed.py"
UT = "dsps/utils.py"
DB = "dsps/sfh/diffburst.py"
UM = "dsps/metallicity/umzr.py"
MZ = "dsps/metallicity/mzr.py"
EW = "dsps/em_lines/equivalent_width.py"
MW = "dsps/sed/metallicity_weights.py"
AW = "dsps/sed/stellar_age_weights.py"
PK = "dsps/photometry/photometry_kernels.py"
PP = "dsps/photometry/photpop.py"
PU = "dsps/photometry/utils.py"
FD = "dsps/data_loaders/load_filter_data.py"
LS = "dsps/data_loaders/load_ssp_data.py"
FK = "dsps/data_loaders/retrieve_fake_fsps_data.py"
RF = "dsps/data_loaders/retrieve_fsps_data.py"
EI = "dsps/data_loaders/load_emline_info.py"
SM = "dsps/imf/surviving_mstar.py"
RM = "dsps/imf/remnant_mass.py"
FW = "dsps/cosmology/flat_wcdm.py"
CD = "dsps/cosmology/defaults.py"
AC = "dsps/dust/att_curves.py"
BB = "dsps/dust/blackbody.py"
IN = "dsps/__init__.py"

S("m01-k-pair", "M01", [(UM, "    lo, hi = bound\n    mid = 0.5 * (lo + hi)\n    return _sigmoid(u_param, mid, BOUNDING_K, lo, hi)", "    lo, hi = bound\n    mid = 0.5 * (lo + hi)\n    return _sigmoid(u_param, mid, BOUNDING_K / (hi - lo), lo, hi)"),
 (UM, "    lo, hi = bound\n    mid = 0.5 * (lo + hi)\n    return _inverse_sigmoid(param, mid, BOUNDING_K, lo, hi)", "    lo, hi = bound\n    mid = 0.5 * (lo + hi)\n    return _inverse_sigmoid(param, mid, BOUNDING_K / (hi - lo), lo, hi)")], H + """
from dsps.metallicity import umzr
lo, hi = -1.0, 0.25
u = umzr.DEFAULT_MZR_U_PARAMS._replace(u_mzr_t0_ytp=3.0)
close(umzr.get_bounded_mzr_params(u).mzr_t0_ytp, lo + (hi - lo)/(1 + np.exp(-0.1*(3.0 - 0.5*(lo + hi)))), "ytp", 1e-5)
""", "any unbounded value away from the interval centre; both directions change together so round trips still hold", "steepness of the bounding maps depends on the width of the interval")

S("m01-hi-floor", "M01", [(UM, "    x0 = 0.0\n    ylo = MZR_PBDICT[\"mzr_t0_slope_hi\"][0]\n    yhi = mzr_t0_slope_lo\n    mzr_t0_slope_hi = _sigmoid(", "    x0 = 0.0\n    ylo = jnp.minimum(0.1, 0.1 * mzr_t0_slope_lo)\n    yhi = mzr_t0_slope_lo\n    mzr_t0_slope_hi = _sigmoid("),
 (UM, "    x0 = 0.0\n    ylo = MZR_PBDICT[\"mzr_t0_slope_hi\"][0]\n    yhi = mzr_t0_slope_lo\n    u_mzr_t0_slope_hi", "    x0 = 0.0\n    ylo = jnp.minimum(0.1, 0.1 * mzr_t0_slope_lo)\n    yhi = mzr_t0_slope_lo\n    u_mzr_t0_slope_hi")], H + """
from dsps.metallicity import umzr
p = umzr.get_bounded_mzr_params(umzr.DEFAULT_MZR_U_PARAMS._replace(u_mzr_t0_slope_hi=-60.0))
close(p.mzr_t0_slope_hi, p.mzr_t0_slope_lo/(1 + np.exp(6.0)), "slope_hi", 1e-4)
""", "a strongly negative unbounded high-mass slope", "high-mass slope never reaches the documented lower bound 0")

S("k01-today-h", "K01", [(CD, "from .flat_wcdm import PLANCK15 as DEFAULT_COSMOLOGY\n", "from .flat_wcdm import PLANCK15 as DEFAULT_COSMOLOGY, WMAP5\n"), (CD, "TODAY = age_at_z0(*DEFAULT_COSMOLOGY)", "TODAY = age_at_z0(*WMAP5._replace(Om0=DEFAULT_COSMOLOGY.Om0, h=0.6774 + 1e-3))")], H + """
from dsps.cosmology import TODAY, DEFAULT_COSMOLOGY, age_at_z0
close(TODAY, age_at_z0(*DEFAULT_COSMOLOGY), "TODAY", 1e-8)
""", "comparing TODAY with the age of the default cosmology to better than 0.2 percent", "TODAY is the age of a slightly different cosmology")

S("k01-fsps-w0", "K01", [(FW, "FSPS_COSMO = CosmoParams(0.27, -1.0, 0.0, 0.72)", "FSPS_COSMO = CosmoParams(h=0.72, wa=0.0, w0=-0.98, Om0=0.27)")], H + """
from dsps.cosmology import flat_wcdm as f
z = np.linspace(0, 3, 100001)
want = np.trapezoid(299792.458/(72.0*np.sqrt(0.27*(1+z)**3 + 0.73)), z)
close(f.comoving_distance_to_z(3.0, *f.FSPS_COSMO), want, "distance", 1e-4)
""", "using the FSPS cosmology at high redshift", "FSPS cosmology gets a non-lambda dark energy")

S("k02-alias", "K02", [(RM, "SALPETER_PARAMS = deepcopy(DEFAULT_PARAMS)", "SALPETER_PARAMS = DEFAULT_PARAMS"), (RM, "CHABRIER_PARAMS = deepcopy(DEFAULT_PARAMS)\n", "CHABRIER_PARAMS = deepcopy(DEFAULT_PARAMS)\nCHABRIER_PARAMS.update(e=0.005)\n")], H + """
from dsps.imf import remnant_mass as r
print(r.DEFAULT_PARAMS, r.CHABRIER_PARAMS)
a = np.linspace(5, 10.2, 50)
close(r.remnant_mass(a), r.remnant_mass(a, **r.CHABRIER_PARAMS), "default vs chabrier")
""", "an IMF calibration other than the one under test is modified by aliasing", "default remnant fractions are no longer the Chabrier ones")

S("k03-burst-peak", "K03", [(DB, "DEFAULT_BURST_PARAMS = BurstParams(-3.0, 5.5, 7.0)", "DEFAULT_BURST_PARAMS = BurstParams(lgfburst=-3.0, lgyr_max=7.0, lgyr_peak=5.75)")], H + """
from dsps.sfh import diffburst as d
lg = np.linspace(5, 10, 200) - 9
w = np.asarray(d.calc_bursty_age_weights(d.DEFAULT_BURST_PARAMS, np.zeros(200), lg))
close((w*(lg + 9)).sum()/w.sum(), 5.5, "mean burst age", 2e-3)
""", "use of the default burst parameters", "default burst peaks at the wrong age")

S("k03-maiolino", "K03", [(MZ, "MAIOLINO08_PARAMS[3.51] = (12.87, 8.90)", "MAIOLINO08_PARAMS[3.51] = (12.87, 8.79)")], H + """
from dsps.metallicity import mzr
close(mzr.maiolino08_metallicity_evolution(10.0, *mzr.MAIOLINO08_PARAMS[3.51]), -12 - 0.0864*(10 - 12.87)**2 + 8.90, "z=3.51", 1e-6)
""", "the z=3.51 row", "the BC03-based high-redshift row repeats the previous normalisation")

S("l04-met-order", "L04", [(FK, "            c0 = ssp_plaw_data_c0[iz, iage]\n            c1 = ssp_plaw_data_c1[iz, iage]\n", "            c0 = ssp_plaw_data_c0[iz, iage]\n            c1 = ssp_plaw_data_c1[iz, min(iage + 1, n_age - 1)]\n")], H + """
import os, dsps
from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_ssp_data
d = load_fake_ssp_data(n_line=0)
t = os.path.join(os.path.dirname(dsps.__file__), "data_loaders", "tests", "testing_data")
c0 = np.loadtxt(os.path.join(t, "ssp_plaw_data_c0.txt")); c1 = np.loadtxt(os.path.join(t, "ssp_plaw_data_c1.txt"))
for i, j in ((0, 0), (3, 40), (21, 93)):
    close(np.log10(d.ssp_flux[i, j]), c0[i, j] + c1[i, j]*np.log10(d.ssp_wave), "spectrum %d %d" % (i, j))
""", "comparing a spectrum with the tabulated coefficients of the same age", "slope of the neighbouring age is used")

S("l04-filter-order", "L04", [(FK, "    i = _lsst_i_trans(lgwave)\n    z = _lsst_z_trans(lgwave)\n", "    z = _lsst_i_trans(lgwave)\n    i = _lsst_z_trans(lgwave)\n")], H + """
from dsps.data_loaders.retrieve_fake_fsps_data import load_fake_filter_transmission_curves as f
w, *c = f()
m = [np.sum(w*x)/np.sum(x) for x in c]
ok(np.all(np.diff(m) > 0), "filters not in ugrizy order: %s" % m)
""", "use of the i or z curve", "i and z curves exchanged")

S("r03-umzr-before", "R03", [(IN, "from jax import config\n\nconfig.update(\"jax_enable_x64\", True)\n", "from .metallicity import umzr as _umzr  # noqa: F401\nfrom jax import config\n\nconfig.update(\"jax_enable_x64\", True)\n")], H + """
import dsps
from dsps.metallicity import umzr
import jax.numpy as jnp
ok(np.asarray(umzr.get_bounded_mzr_params(umzr.DEFAULT_MZR_U_PARAMS).mzr_t0_x0).dtype == np.float64, "dtype")
u = umzr.DEFAULT_MZR_U_PARAMS
ok(np.asarray(u.u_mzr_t0_x0).dtype == np.float64, "module constant is %s" % np.asarray(u.u_mzr_t0_x0).dtype)
""", "reading a module-level constant of umzr after importing dsps", "module constants computed in single precision")

S("c01-lum-vec", "C01", [(FW, "luminosity_distance = jjit(vmap(luminosity_distance_to_z, in_axes=_A))", "luminosity_distance = jjit(vmap(lambda z, *p: comoving_distance_to_z(z, *p) * (1 + jnp.minimum(z, 20.0)), in_axes=_A))")], H + """
from dsps.cosmology import flat_wcdm as f
z = np.array([0.5, 5.0, 30.0])
close(f.luminosity_distance(z, *f.PLANCK15), [f.luminosity_distance_to_z(x, *f.PLANCK15) for x in z], "vector luminosity distance")
""", "redshift above 20 through the vectorised form only", "vectorised luminosity distance disagrees with the scalar one")

S("c02-early-de", "C02", [(FW, "    a = 1.0 / (1.0 + z)\n    de_z", "    a = jnp.maximum(1.0 / (1.0 + z), 0.02)\n    de_z")], H + """
from dsps.cosmology import flat_wcdm as f
Om0, w0, wa, h = 0.3, -0.4, 0.2, 0.7
z = np.logspace(0, 3, 512) - 1
E = np.sqrt(Om0*(1+z)**3 + (1-Om0)*(1+z)**(3*(1+w0+wa))*np.exp(-3*wa*z/(1+z)))
want = np.trapezoid(1/(1+z)/E, z)*1e-16*3.08567758149e24/31556925.2/h
close(f.age_at_z0(Om0, w0, wa, h), want, "age", 1e-9)
""", "dark energy that is still relevant at z > 49", "early dark-energy density frozen")

S("d01-att-default-rv", "D01", [(AC, "def sbl18_k_att_curve(", "def _sbl18_unused(") ] if False else [(AC, "def _att_curve_from_k_lambda(k_lambda, av):", "def _att_curve_from_k_lambda(k_lambda, av, rv=4.05):")], H + "", "", "") if False else None

S("d02-noll-clip-order", "D02", [(AC, "    k_lambda = jnp.where(wave_micron > xc, k_lambda_c00, k_lambda_l02)\n    return k_lambda", "    k_lambda = jnp.where(wave_micron > xc, k_lambda_c00, k_lambda_l02)\n    return jnp.where(wave_micron > 2.5, 0.0, k_lambda)")], H + """
from dsps.dust.att_curves import sbl18_k_lambda as f
w = np.array([2.6, 3.0])
l = w
k = 2.659*(-1.857 + 1.040/l) + 4.05
import jax.numpy as jnp
close(f(jnp.asarray(w), 0.2175, 0.035, 1.0, 0.3), np.maximum(k*(w/0.55)**0.3, 0) + 1.0*(w*0.035)**2/((w**2 - 0.2175**2)**2 + (w*0.035)**2), "near-infrared curve", 1e-6)
""", "wavelengths beyond 2.5 micron", "attenuation in the thermal infrared set to zero")

S("f01-ab0-band", "F01", [(PK, "    integrand = trans_filter * AB0 / wave_filter\n", "    ab = jnp.where(trans_filter > 1e-4, AB0, 0.0)\n    integrand = trans_filter * ab / wave_filter\n")], H + """
from dsps.photometry.photometry_kernels import calc_rest_flux as f
w = np.linspace(4000, 5000, 50); t = np.full(50, 5e-5)
s = np.linspace(1000, 9000, 500); l = np.full(500, 1.13492e-13)
close(f(s, l, w, t), 1.0, "flux of the AB source")
""", "a filter whose transmission is tiny everywhere", "reference flux drops low-transmission samples")

S("f02-z-table-clamp", "F02", [(PK, "    distance_modulus = jnp.interp(z, z_table, distance_modulus_table)\n    return distance_modulus - 2.5 * jnp.log10(1 + z)", "    distance_modulus = jnp.interp(z, z_table, distance_modulus_table)\n    z = jnp.clip(z, z_table[0], z_table[-1])\n    return distance_modulus - 2.5 * jnp.log10(1 + z)")], H + """
from dsps.photometry.photometry_kernels import _cosmological_dimming_from_table as f
zt = np.array([0.1, 0.5, 1.0]); d = np.array([38.0, 42.0, 44.0])
for z in (0.05, 0.3, 2.0):
    close(f(z, zt, d), np.interp(z, zt, d) - 2.5*np.log10(1 + z), "z=%s" % z)
""", "a redshift outside the table", "bandwidth stretching clamped to the table's range")

S("f03-kcorrect-swap", "F03", [(PP, "_calc_obs_mag_no_dimming_f_ssp = jjit(\n    vmap(vmap(_calc_obs_mag_no_dimming_f, in_axes=_ssp2), in_axes=_ssp2)\n)", "_ssp2_age = [None, 1, *[None] * 3]\n_calc_obs_mag_no_dimming_f_ssp = jjit(\n    vmap(vmap(_calc_obs_mag_no_dimming_f, in_axes=_ssp2), in_axes=_ssp2_age, out_axes=0)\n)")], H + """
from dsps.photometry.photpop import precompute_ssp_restmags_z_kcorrect as f
from dsps.photometry.photometry_kernels import _calc_obs_mag_no_dimming as g
rng = np.random.RandomState(0)
sw = np.linspace(1000, 20000, 200); fl = rng.uniform(1, 2, (3, 3, 200))
fw = np.array([np.linspace(4000, 5000, 20), np.linspace(6000, 7000, 20)]); ft = np.ones((2, 20))
r = f(sw, fl, fw, ft, 0.1)
close(r[0, 2, 1], g(sw, fl[0, 2], fw[1], ft[1], 0.1), "entry")
""", "as many metallicities as ages, or checking entries rather than shapes", "k-corrected table transposed in metallicity and age")

S("f04-dup-first", "F04", [(PU, "        new_wave = np.linspace(wave_min, wave_max, n)\n", "        new_wave = np.linspace(wave_min, wave_max, n) if wave.size != n else wave\n")], H + """
from dsps.photometry.utils import interpolate_filter_trans_curves as f
w1 = np.array([1.0, 1.1, 3.0, 4.0]); w2 = np.linspace(2, 9, 7)
w, t = f([w1, w2], [w1*0 + 1, w2*0 + 1])
close(w[0], np.linspace(1, 4, 4), "first row equally spaced")
""", "a curve with unequal spacing that already has the target length", "such a curve keeps its irregular grid")

S("f05-clip-trans", "F05", [("dsps/dust/utils.py", "    norm = trapz(filter_wave, filter_trans)\n", "    filter_trans = filter_trans / filter_trans[0] if False else filter_trans * (filter_trans > 1e-3)\n    norm = trapz(filter_wave, filter_trans)\n")], H + """
from dsps.dust.utils import get_filter_effective_wavelength as f
w = np.linspace(4000, 6000, 100); t = np.where(w < 5000, 5e-4, 1e-2)
close(f(w, t, 0.5), np.trapezoid(w*t, w)/np.trapezoid(t, w)/1.5, "effective wavelength")
""", "a curve with transmissions below 0.001", "low-transmission wings ignored")

S("i01-survive-clip", "I01", [(SM, "    return 1 - frac_returned", "    return jnp.clip(1 - frac_returned, 0.5, 1.0)"), (SM, "from jax import jit as jjit\n", "from jax import jit as jjit, numpy as jnp\n")], H + """
from dsps.imf.surviving_mstar import surviving_mstar as f
from scipy.special import expit
def ref(x, a, b, lgk1, d, e, ff, lgk2, h):
    z = a + (d + (e - d)*expit(10**lgk1*(x - b)))*(x - b)
    return 1 - (h + (z - h)*expit(10**lgk2*(x - ff)))
x = np.linspace(5, 10.3, 40)
p = dict(a=0.35, b=8.0, lgk1=-0.5, d=0.2, e=0.15, f=6.5, lgk2=0.7, h=0.005)
close(f(x, **p), ref(x, 0.35, 8.0, -0.5, 0.2, 0.15, 6.5, 0.7, 0.005), "surviving fraction")
""", "parameters that return more than half of the mass", "surviving fraction clipped at one half")

S("l01-match-first", "L01", [(FD, None, None)], "", "", "") if False else None

S("l02-log-flux", "L02", [(LS, "L_SUN_CGS", "L_SUN_CGS")], "", "", "") if False else None

S("m02-tnow", "M02", [(UM, "    t_lookback = MZR_EVOL_T0 - cosmic_time\n    t_lookback = jnp.where(t_lookback < 0, 0, t_lookback)\n", "    t_lookback = jnp.abs(MZR_EVOL_T0 - cosmic_time)\n")], H + """
from dsps.metallicity import umzr
p = umzr.DEFAULT_MZR_PARAMS
close(umzr.mzr_model(10.0, 13.7, *p), umzr.mzr_model(10.0, 12.5, *p), "beyond 12.5 Gyr")
""", "cosmic time later than 12.5 Gyr", "metallicity drops again after the reference time in the unbounded module")

S("p01-order", "P01", [(UT, "    return (ag + (bg - ag) * r) ** (1.0 / g)", "    return jnp.sort((ag + (bg - ag) * r) ** (1.0 / g))")], H + """
import jax
from dsps.utils import powerlaw_rvs as f
n = 50
a = np.linspace(1, 2, n); b = np.linspace(5, 3, n); g = np.full(n, -0.5)
k = jax.random.PRNGKey(3)
u = np.asarray(jax.random.uniform(k, (n,)))
close(f(k, a, b, g), (a**g + (b**g - a**g)*u)**(1/g), "draws")
""", "more than one element", "draws are sorted, so elements are not independent and leave their own bounds")

S("r01-cache", "R01", [(LS, "def load_ssp_templates(", "_SSP_CACHE = {}\n\n\ndef load_ssp_templates(")], "", "", "") if False else None

S("r02-fold-const", "R02", [(UM, "        ran_key, p_key = jran.split(ran_key, 2)\n        u = jran.uniform(p_key,", "        ran_key, p_key = jran.split(ran_key, 2)\n        p_key = jran.fold_in(jran.PRNGKey(0), ip) if ip > 3 else p_key\n        u = jran.uniform(p_key,")], H + """
import jax
from dsps.metallicity.umzr import get_ran_t0_params as f
a = f(jax.random.PRNGKey(0)); b = f(jax.random.PRNGKey(7))
ok(all(abs(float(x) - float(y)) > 1e-9 for x, y in zip(a, b)), "a parameter does not depend on the key: %s %s" % (a, b))
""", "looking at the fifth parameter with two keys", "the last parameter ignores the caller's key")

S("r05-host-mean", "R05", [(DB, "    s = jnp.sum(x)\n    s = jnp.where(s <= 0, 1, s)\n    return x / s", "    s = lax.stop_gradient(jnp.sum(x))\n    s = jnp.where(s <= 0, 1, s)\n    return x / s"), (DB, "from jax import jit as jjit\n", "from jax import jit as jjit\nfrom jax import lax\n")], H + """
import jax
from dsps.sfh.diffburst import calc_bursty_age_weights as f, BurstParams
lg = np.linspace(-4, 1, 60)
def m(x):
    return (f(BurstParams(-1.0, 5.5 + x, 7.0), np.full(60, 1/60.), lg)*lg).sum()
e = 1e-5
close(jax.grad(m)(0.0), (m(e) - m(-e))/(2*e), "gradient", 1e-4)
""", "the gradient with respect to a burst age", "derivative of the burst normalisation lost")

S("w03-diff-clip", "W03", [(AW, "    delta_mstar_at_t_birth = -jnp.diff(10**logsm_at_t_birth_bin_edges)\n", "    delta_mstar_at_t_birth = jnp.maximum(-jnp.diff(10**logsm_at_t_birth_bin_edges), 1.0)\n")], H + """
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table as f
t = np.linspace(0.1, 13.8, 100); s = np.where(t < 2, 0.0, 1.0)
w = np.asarray(f(t, s, np.linspace(-3, 1.3, 40), 1.0))
ok(w[-1] < 1e-9, "stars older than the universe carry weight %s" % w[-1])
""", "galaxies with almost no stellar mass, or ages beyond the age of the universe", "empty age bins get one solar mass")

S("w04-zh-scatter", "W04", [(MW, "    lgmet_weight_matrix = _get_lgmet_weights_singlegal_zh(\n        lgmet_at_ssp_lgages, gal_lgmet_scatter, lgmetbin_edges\n    )\n", "    lgmet_at_ssp_lgages = jnp.clip(lgmet_at_ssp_lgages, ssp_lgmet[0], ssp_lgmet[-1])\n    lgmet_weight_matrix = _get_lgmet_weights_singlegal_zh(\n        lgmet_at_ssp_lgages, gal_lgmet_scatter, lgmetbin_edges\n    )\n")], H + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lgmet_table as f, calc_lgmet_weights_from_lognormal_mdf as g
t = np.linspace(0.1, 13.8, 50); m = np.linspace(-3, -2.3, 8); a = np.linspace(-2, 1, 10)
w = f(t, np.full(50, -2.1), 0.3, m, a, 13.0)
close(np.asarray(w)[:, 0]*10, g(-2.1, 0.3, m), "metallicity above the grid")
""", "a galaxy metallicity outside the SSP grid with a broad distribution", "centre of the distribution clipped to the grid in the history version")

S("w05-kern-edge", "W05", [(UT, "    val = jnp.where(z < -3, 0, val)\n    val = jnp.where(z > 3, 1, val)\n    return val", "    val = jnp.where(z < -3, 0, val)\n    val = jnp.where(z > 2.95, 1, val)\n    return val")], H + """
from dsps.utils import _tw_cuml_kern as f
z = 2.96
close(f(z, 0.0, 1.0), -5*z**7/69984 + 7*z**5/2592 - 35*z**3/864 + 35*z/96 + 0.5, "cdf", 1e-12)
""", "an argument within 0.05 of the upper edge", "cumulative kernel saturates before its edge")

S("w06-cumtrapz-abs", "W06", [(UT, "    cumtrapz = cumtrapz + (b - a) * (fb + fa) / 2.0\n", "    cumtrapz = cumtrapz + jnp.maximum((b - a) * (fb + fa) / 2.0, 0.0)\n")], H + """
from dsps.utils import cumtrapz as f
x = np.linspace(0, 6, 100); y = np.cos(x)
close(f(x, y), np.concatenate([[0], np.cumsum(np.diff(x)*(y[1:] + y[:-1])/2)]), "cumulative integral")
""", "an integrand that changes sign", "negative areas dropped")

S("w07-two-points", "W07", [(UT, "    t_lo = t[0] - (t[1] - t[0]) / 2\n", "    t_lo = t[0] - (t[2] - t[1]) / 2\n")], H + """
from dsps.utils import _jax_get_dt_array as f
import jax.numpy as jnp
t = jnp.array([0.0, 1.0, 4.0, 5.0])
close(f(t)[0], 1.0, "first width")
""", "a grid whose first two spacings differ", "first bin takes its outer half from the second spacing")

S("w08-pdf-sign", "W08", [(UT, "    ag, bg = a**g, b**g\n    return g * x ** (g - 1) / (bg - ag)", "    ag, bg = a**g, b**g\n    msk = (x >= a) & (x < b)\n    return jnp.where(msk, g * x ** (g - 1) / (bg - ag), 0.0)")], H + """
from dsps.utils import powerlaw_pdf as f
x = np.array([1.0, 2.0]); a = np.array([0.5, 1.0]); b = np.array([2.0, 2.0]); g = np.array([1.5, -0.5])
close(f(x, a, b, g), g*x**(g-1)/(b**g - a**g), "density")
""", "x equal to the upper bound", "density zero at the upper bound")

SEEDS = [s for s in SEEDS if s["demo"]]
