SEEDS = []
def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo.lstrip("\n"), needs=needs, breaks=breaks))
FW = "dsps/cosmology/flat_wcdm.py"
H = """
import sys
import numpy as np
def close(a, b, what, rtol=1e-6, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.allclose(a, b, rtol=rtol, atol=atol):
        print("MISMATCH %s: got %s want %s" % (what, a.ravel()[:5], b.ravel()[:5]))
        sys.exit(1)
"""
COS = H + """
def E(z, Om0, w0, wa):
    z = np.asarray(z, float)
    return np.sqrt(Om0*(1+z)**3 + (1-Om0)*(1+z)**(3*(1+w0+wa))*np.exp(-3*wa*z/(1+z)))
"""
S("c01-wa-exponent", "C01", [(FW, "lax.exp(-3.0 * wa * (1.0 - a))", "lax.exp(-3.0 * wa * z)")], COS + """
from dsps.cosmology import flat_wcdm as fw
for p in [(0.3, -1.0, 0.0, 0.7), (0.3, -0.9, 0.3, 0.7), (0.25, -1.1, -0.4, 0.72)]:
    for z in (0.2, 1.0, 3.0):
        x = np.linspace(0, z, 256)
        close(fw.comoving_distance_to_z(z, *p), np.trapezoid(1/E(x, *p[:3]), x)*2997.92458/p[3], "D_C")
""", "a cosmology with wa != 0", "dark-energy density evolution, hence every distance with evolving dark energy")
S("c01-volume-hubble", "C01", [(FW, "    ez = _Ez(redshift, Om0, w0, wa)\n    diff_vol_com", "    ez = _Ez(redshift, Om0, -1.0, wa)\n    diff_vol_com")], COS + """
from dsps.cosmology import flat_wcdm as fw
for p in [(0.3, -1.0, 0.0, 0.7), (0.3, -0.8, 0.1, 0.7)]:
    for z in (0.2, 1.0, 3.0):
        x = np.linspace(0, z, 256)
        dc = np.trapezoid(1/E(x, *p[:3]), x)*2997.92458/p[3]
        close(fw.differential_comoving_volume_at_z(z, *p), 2997.92458/p[3]*dc**2/E(z, *p[:3]), "dV/dz")
""", "a cosmology with w0 != -1", "differential comoving volume uses the wrong expansion rate")
S("c02-lookback-zmax", "C02", [(FW, "z_table = jnp.linspace(0, redshift, 512)", "z_table = jnp.linspace(0, jnp.minimum(redshift, 30.0), 512)")], COS + """
from dsps.cosmology import flat_wcdm as fw
p = (0.3, -1.0, 0.0, 0.7)
for z in (0.5, 5.0, 20.0, 60.0, 300.0):
    x = np.linspace(0, z, 512)
    th = 1e-16*3.08567758149e24/31556925.2/p[3]
    close(fw.lookback_to_z(z, *p), th*np.trapezoid(1/E(x, *p[:3])/(1+x), x), "lookback z=%s" % z)
""", "a redshift beyond 30", "lookback time and age freeze beyond z=30")
S("c03-deltavir-clip", "C03", [(FW, "x = _Om(z, Om0, w0, wa) - 1.0", "x = jnp.maximum(_Om(z, Om0, w0, wa) - 1.0, -0.75)")], COS + """
from dsps.cosmology import flat_wcdm as fw
z = np.array([0.0, 0.3, 1.0])
for p in [(0.3, -1.0, 0.0, 0.7), (0.1, -1.0, 0.0, 0.7)]:
    x = p[0]*(1+z)**3/E(z, *p[:3])**2 - 1
    d = 18*np.pi**2 + 82*x - 39*x**2
    th = 1e-16*3.08567758149e24/31556925.2/p[3]/E(z, *p[:3])
    close(fw.virial_dynamical_time(z, *p), 2**1.5*th/np.sqrt(d), "tdyn")
""", "a low-density cosmology (Om0 < 0.25) at low redshift", "virial overdensity clipped, dynamical time wrong")
PH = H + """
def interp0(x, xp, fp):
    return np.interp(x, xp, fp, left=0.0, right=0.0)
def obs_flux(w, L, wf, T, z):
    return np.trapezoid(T*interp0(wf, w*(1+z), L)/wf, wf)/np.trapezoid(T*1.13492e-13/wf, wf)
"""
PK = "dsps/photometry/photometry_kernels.py"
S("f01-left-fill", "F01", [(PK, "    lum_zshift_phot = jnp.interp(\n        wave_filter, wave_spec_rest * (1 + z), lum_spec, left=0, right=0\n    )", "    lum_zshift_phot = jnp.interp(\n        wave_filter, wave_spec_rest * (1 + z), lum_spec, right=0\n    )")], PH + """
from dsps.photometry.photometry_kernels import _calc_obs_mag_no_dimming
w = np.linspace(1000., 9000., 400); L = 1e-5*(1 + w/4000.)
wf = np.linspace(3000., 6000., 150); T = np.exp(-0.5*((wf-4500)/500)**2)
for z in (0.0, 0.5, 1.0, 3.0):
    close(_calc_obs_mag_no_dimming(w, L, wf, T, z), -2.5*np.log10(obs_flux(w, L, wf, T, z)), "mag z=%s" % z)
""", "a redshift that moves the blue end of the spectrum inside the filter", "flux blueward of the SED's first wavelength is no longer zero")
S("f02-dimming-wa", "F02", [(PK, "    dimming = _cosmological_dimming(redshift, Om0, w0, wa, h)\n    obs_mag", "    dimming = _cosmological_dimming(redshift, Om0, w0, 0.0, h)\n    obs_mag")], PH + """
from dsps.photometry.photometry_kernels import calc_obs_mag
def E(z, Om0, w0, wa):
    return np.sqrt(Om0*(1+z)**3 + (1-Om0)*(1+z)**(3*(1+w0+wa))*np.exp(-3*wa*z/(1+z)))
w = np.linspace(1000., 9000., 400); L = 1e-5*(1 + w/4000.)
wf = np.linspace(3000., 6000., 150); T = np.exp(-0.5*((wf-4500)/500)**2)
for p in [(0.3, -1., 0., .7), (0.3, -0.9, 0.4, .7)]:
    z = 0.8
    x = np.linspace(0, z, 256)
    dm = 5*np.log10(np.trapezoid(1/E(x, *p[:3]), x)*2997.92458/p[3]*(1+z)*1e5)
    close(calc_obs_mag(w, L, wf, T, z, *p), -2.5*np.log10(obs_flux(w, L, wf, T, z)) + dm - 2.5*np.log10(1+z), "obs mag")
""", "a cosmology with wa != 0", "apparent magnitudes ignore dark-energy evolution")
S("f03-kcorrect-wave", "F03", [("dsps/photometry/photpop.py", "        ssp_wave, ssp_fluxes, filter_waves, filter_trans, z_kcorrect\n    )\n    return ssp_restmag_table", "        ssp_wave, ssp_fluxes, filter_waves, filter_trans, z_kcorrect\n    )\n    ssp_restmag_table = ssp_restmag_table - 2.5 * jnp.log10(1 + z_kcorrect)\n    return ssp_restmag_table"),
   ("dsps/photometry/photpop.py", "from jax import jit as jjit\n", "from jax import jit as jjit\nfrom jax import numpy as jnp\n")], PH + """
from dsps.photometry.photpop import precompute_ssp_restmags_z_kcorrect as f
w = np.linspace(500., 12000., 300)
fl = 1e-5*(1 + np.arange(2*3).reshape(2, 3, 1) + w/4000.)
wf = np.array([np.linspace(3000., 6000., 50), np.linspace(5000., 7000., 50)]); T = np.exp(-0.5*((wf-5000)/700)**2)
for z in (0.0, 0.1, 0.7):
    want = np.array([[[-2.5*np.log10(obs_flux(w, fl[i, j], wf[k], T[k], z)) for k in range(2)] for j in range(3)] for i in range(2)])
    close(f(w, fl, wf, T, z), want, "kcorrect table z=%s" % z)
""", "a k-correction redshift other than zero", "k-corrected magnitude table no longer equals the undimmed magnitude")
S("f05-riemann", "F05", [("dsps/dust/utils.py", "    lambda_eff_rest = trapz(filter_wave, filter_trans * filter_wave) / norm", "    lambda_eff_rest = (filter_trans * filter_wave).sum() / filter_trans.sum()")], H + """
from dsps.dust.utils import get_filter_effective_wavelength as f
for wf in (np.linspace(3000., 6000., 200), np.geomspace(3000., 6000., 200)):
    T = np.exp(-0.5*((wf-4400)/400)**2)
    close(f(wf, T, 0.5), np.trapezoid(wf*T, wf)/np.trapezoid(T, wf)/1.5, "lambda_eff", 1e-5)
""", "a filter tabulated on a non-uniform wavelength grid", "effective wavelength weights samples, not wavelength")
AC = "dsps/dust/att_curves.py"
S("d01-floor-max", "D01", [(AC, "    ftrans = ftrans_floor + (1 - ftrans_floor) * ftrans\n", "    ftrans = jnp.maximum(ftrans, ftrans_floor)\n")], H + """
from dsps.dust.att_curves import _frac_transmission_from_k_lambda as f
k = np.linspace(-1, 12, 40)
for av in (0.0, 0.5, 2.0):
    for fl in (0.0, 0.2, 0.6):
        A = np.maximum(k*av/4.05, 0)
        close(f(k, av, fl), fl + (1-fl)*10**(-0.4*A), "ftrans")
""", "a nonzero transmission floor at moderate attenuation", "floor clips the transmission instead of compressing it")
S("d02-l02-boundary", "D02", [(AC, "k_lambda = jnp.where(wave_micron > xc, k_lambda_c00, k_lambda_l02)", "k_lambda = jnp.where(wave_micron >= xc, k_lambda_c00, k_lambda_l02)")], H + """
from dsps.dust.att_curves import noll09_k_lambda as f
x = np.array([0.12, 0.15, 0.2, 0.5, 0.9])
y = 1/x
c = np.where(x < 0.63, 2.659*(-2.156+1.509*y-0.198*y**2+0.011*y**3)+4.05, 2.659*(-1.857+1.04*y)+4.05)
l = 5.472+0.671*y-9.218e-3*y**2+2.62e-3*y**3
k = np.where(x <= 0.15, l, c)
close(f(x, 0.0, 0.0), np.maximum(k, 0), "noll09")
""", "a wavelength of exactly 0.15 micron", "which baseline curve applies at the switch wavelength")
S("d02-sbl-width", "D02", [(AC, "    k_lambda = sbl18_k_lambda(\n        wave_micron, uv_bump_ampl, plaw_slope, uv_bump, uv_bump_width\n    )", "    k_lambda = sbl18_k_lambda(wave_micron, uv_bump_ampl, plaw_slope, uv_bump)")], H + """
from dsps.dust.att_curves import sbl18_k_att_curve, sbl18_k_lambda
x = np.linspace(0.1, 1.0, 60)
for width in (0.035, 0.06):
    close(sbl18_k_att_curve(x, 0.7, 2.0, -0.3, 0.2175, width), np.maximum(0.7*np.asarray(sbl18_k_lambda(x, 2.0, -0.3, 0.2175, width))/4.05, 0), "sbl18 att")
""", "a UV bump width other than the default", "Salim attenuation curve ignores the requested bump width")
S("d03-wien", "D03", [("dsps/dust/blackbody.py", "    x = hc / kt / wave_meters\n    denom = 1 / (lax.exp(x) - 1)", "    x = hc / kt / wave_meters\n    # the Planck factor underflows deep in the Wien tail\n    denom = jnp.where(x > 30.0, 0.0, 1 / (lax.exp(x) - 1))"),
   ("dsps/dust/blackbody.py", "from jax import lax\n", "from jax import lax\nfrom jax import numpy as jnp\n")], H + """
from dsps.dust.blackbody import blackbody_wave_density as f
h, k, c = 6.62607015e-34, 1.380649e-23, 299792458.0
for T in (50., 3000., 5800., 2e4):
    wa = np.geomspace(500., 1e6, 60)
    x = h*c/(wa*1e-10*k*T)
    ok = x < 300
    wm = wa[ok]*1e-10
    want = 2*h*c**2/wm**5/np.expm1(x[ok])/3.828e26*1e-10
    close(f(wa[ok], T), want, "planck", 1e-6, 0)
""", "wavelengths deep in the Wien tail (hc/lambda kT > 30)", "blackbody truncated to zero in the Wien tail")
S("m02-late-slope-pivot", "M02", [("dsps/metallicity/mzr.py", "    late_time_slope = y_at_tc / tc\n", "    late_time_slope = y_at_tc / MZR_VS_T_PDICT[\"tlook_c\"]\n")], H + """
from dsps.metallicity import mzr
def sig(x, x0, k, lo, hi): return lo + (hi-lo)/(1+np.exp(-k*(x-x0)))
lgm = np.linspace(7, 12, 20)
for tc in (8.44, 6.0):
    for t in (1.0, 6.0, 13.0):
        tl = max(12.5-t, 0)
        y = -1.455+0.13*lgm; es = -0.959+0.067242*lgm
        g = y + sig(tl, tc, 1.6, y/tc, es)*(tl-tc)
        close(mzr.mzr_evolution_model(lgm, t, -1.455, 0.13, tc, -0.959, 0.067242), np.minimum(g, 0), "evolution")
""", "a transition lookback time other than the default 8.44 Gyr", "late-time slope no longer passes through zero at lookback 0")
S("m02-lookback-clip", "M02", [("dsps/metallicity/umzr.py", "    t_lookback = jnp.where(t_lookback < 0, 0, t_lookback)\n", "    t_lookback = jnp.where(t_lookback < 0, -t_lookback, t_lookback)\n")], H + """
from dsps.metallicity import umzr
def sig(x, x0, k, lo, hi): return lo + (hi-lo)/(1+np.exp(-k*(x-x0)))
lgm = np.linspace(7, 12, 20)
for t in (1.0, 6.0, 12.0, 13.5, 13.8):
    tl = max(12.5-t, 0); tc = 8.44
    y = -1.455+0.13*lgm; es = -0.959+0.067242*lgm
    g = y + sig(tl, tc, 1.6, y/tc, es)*(tl-tc)
    close(umzr.mzr_evolution_model(lgm, t, -1.455, 0.13, -0.959, 0.067242), np.minimum(g, 0), "evolution t=%s" % t)
""", "a cosmic time later than 12.5 Gyr", "metallicity evolution re-appears after the present epoch")
S("i01-remnant-pivot", "I01", [("dsps/imf/remnant_mass.py", "    xtp = b\n", "    xtp = DEFAULT_PARAMS[\"b\"]\n")], H + """
from dsps.imf.remnant_mass import remnant_mass
def sig(x, x0, k, lo, hi): return lo + (hi-lo)/(1+np.exp(-k*(x-x0)))
x = np.linspace(5, 10, 30)
for b in (7, 7.8):
    a, lgk1, d, e = -1.42, 1, 1.3, 0.2
    close(remnant_mass(x, a, b, lgk1, d, e), 10**(a + sig(x, b, 10**lgk1, d, e)*(x-b)), "remnant")
""", "a transition age b other than the default", "pivot of the remnant-mass fit detached from its parameter")
SW = "dsps/sed/ssp_weights.py"
S("w01-marginal-norm", "W01", [(SW, "    weights = lgmet_weights * age_weights.reshape((1, -1))\n    weights = weights / weights.sum()\n", "    weights = lgmet_weights / lgmet_weights.sum(axis=1, keepdims=True)\n    weights = weights * lgmet_weights.sum(axis=1, keepdims=True)\n    weights = weights * age_weights.reshape((1, -1))\n    weights = weights / weights.sum()\n")], H + """
from dsps.sed.ssp_weights import calc_ssp_weights_sfh_table_met_table as f
t = np.linspace(0.1, 13.8, 80); sfr = 1+np.sin(t)**2; 
lgz = np.linspace(-2.5, -1.5, 80)
zg = np.linspace(-4, -1, 9); ag = np.linspace(-3, 1, 25)
for sc in (0.3, 0.05):
    r = f(t, sfr, lgz, sc, zg, ag, 13.0)
    w = np.asarray(r.lgmet_weights)*np.asarray(r.age_weights)[None, :]
    close(r.weights, w/w.sum(), "joint weights")
""", "an SSP metallicity bin receiving no weight at any age", "0/0 fills the joint weights with NaN")
S("w02-mstar-lin-time", "W02", [("dsps/sed/stellar_sed.py", "    weights, lgmet_weights, age_weights = calc_ssp_weights_sfh_table_met_table(", "    weights, lgmet_weights, age_weights = _met_table_weights("),
   ("dsps/sed/stellar_sed.py", "__all__ = (\"calc_rest_sed_sfh_table_lognormal_mdf\"", "_met_table_weights = calc_ssp_weights_sfh_table_met_table\n\n__all__ = (\"calc_rest_sed_sfh_table_lognormal_mdf\""),
   ("dsps/constants.py", "T_TABLE_MIN = 0.01\n", "T_TABLE_MIN = 0.01\n")], H + "\n", "x", "x")
SEEDS.pop()
SA = "dsps/sed/stellar_age_weights.py"
S("w03-birth-clip", "W03", [(SA, "t_birth = jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN, t_birth)", "t_birth = jnp.where(t_birth <= 0, T_BIRTH_MIN, t_birth)")], H + """
from dsps.sed.stellar_age_weights import _get_lgt_birth as f
ages = np.array([0.1, 1.0, 4.9, 4.9995, 5.0, 6.0])
t = np.maximum(5.0-ages, 0.001)
close(f(5.0, np.log10(ages)), np.log10(t), "lgt_birth")
""", "an SSP age within 1 Myr of the age of the universe", "birth times below the 1 Myr floor")
S("w03-log-mass-interp", "W03", [(SA, "    logsm_at_t_birth_bin_edges = jnp.interp(lgt_birth_bin_edges, lgt_table, logsm_table)\n    delta_mstar_at_t_birth = -jnp.diff(10**logsm_at_t_birth_bin_edges)", "    mstar_at_t_birth_bin_edges = jnp.interp(\n        lgt_birth_bin_edges, lgt_table, 10**logsm_table\n    )\n    delta_mstar_at_t_birth = -jnp.diff(mstar_at_t_birth_bin_edges)")], H + """
from dsps.sed.stellar_age_weights import _calc_age_weights_from_logsm_table as f
lgt = np.log10(np.linspace(0.1, 13.8, 12)); lgm = 3 + 7*(lgt - lgt[0])
ages = np.linspace(-2, 1.0, 14); tobs = 12.0
d = np.gradient(ages)
w = np.diff(ages)
mid = 0.5*(ages[1:]+ages[:-1])
edges = np.concatenate([[ages[0]-w[0]/2], mid, [ages[-1]+w[-1]/2]])
tb = np.log10(np.maximum(tobs-10**edges, 1e-3))
m = 10**np.interp(tb, lgt, lgm)
dm = -np.diff(m)
close(f(lgt, lgm, ages, tobs)[1], dm/dm.sum(), "age weights", 1e-6)
""", "a coarsely tabulated star formation history", "mass between tabulated times interpolated linearly instead of in the log")
S("w04-mdf-edges", "W04", [("dsps/constants.py", "LGMET_LO, LGMET_HI = -10.0, 10.0", "LGMET_LO, LGMET_HI = -5.0, 5.0")], H + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lognormal_mdf as f
def cdf(x, m, h):
    z = np.clip((x-m)/h, -3, 3)
    return -5*z**7/69984+7*z**5/2592-35*z**3/864+35*z/96+0.5
zg = np.linspace(-4, -1, 13)
e = np.concatenate([[-10.], 0.5*(zg[1:]+zg[:-1]), [10.]])
for m, s in ((-2.0, 0.2), (-4.0, 0.9), (-4.5, 0.5)):
    p = np.diff(cdf(e, m, s))
    close(f(m, s, zg), p/p.sum(), "mdf weights %s" % m)
""", "a broad metallicity distribution reaching below log10 Z = -5", "mass below the cut is dropped and the rest renormalised")
S("w04-hist-linear-time", "W04", [("dsps/sed/metallicity_weights.py", "    lgmet_at_ssp_lgages = jnp.interp(lgt_birth, lgt_table, gal_lgmet_table)\n", "    lgmet_at_ssp_lgages = jnp.interp(10**lgt_birth, 10**lgt_table, gal_lgmet_table)\n")], H + """
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lgmet_table as f
def cdf(x, m, h):
    z = np.clip((x-m)/h, -3, 3)
    return -5*z**7/69984+7*z**5/2592-35*z**3/864+35*z/96+0.5
zg = np.linspace(-4, -1, 13); ag = np.linspace(-2, 1, 9); t = np.linspace(0.5, 13.5, 6); lz = -3 + np.log10(t)
e = np.concatenate([[-10.], 0.5*(zg[1:]+zg[:-1]), [10.]])
tb = np.maximum(13.0-10**ag, 1e-3)
m = np.interp(np.log10(tb), np.log10(t), lz)
want = np.array([np.diff(cdf(e, x, 0.3)) for x in m]).T
close(f(t, lz, 0.3, zg, ag, 13.0), want/want.sum(axis=0)/9, "table weights", 1e-5)
""", "a coarsely tabulated metallicity history", "metallicity interpolated in linear rather than log time")
U = "dsps/utils.py"
S("w05-himsk", "W05", [(U, "    himsk = x > bin_edges[-1]\n", "    himsk = x > bin_edges[-2]\n")], H + """
from dsps.utils import _get_triweights_singlepoint as f
e = np.array([0., 1., 2., 3.])
def cdf(x, m, h):
    z = np.clip((x-m)/h, -3, 3)
    return -5*z**7/69984+7*z**5/2592-35*z**3/864+35*z/96+0.5
for x in (0.5, 1.5, 2.5, 2.99):
    p = np.array([cdf(x, e[i], 0.05)-cdf(x, e[i+1], 0.05) for i in range(3)])
    close(f(x, 0.05, e), p/p.sum(), "weights")
close(f(9.0, 0.05, e), [0, 0, 1.], "above")
close(f(-9.0, 0.05, e), [1., 0, 0], "below")
""", "x", "x")
SEEDS.pop()
S("w05-fill-side", "W05", [(U, "    weights = jnp.where(zmsk & lomsk, lores, weights)\n    weights = jnp.where(zmsk & himsk, hires, weights)\n", "    weights = jnp.where(zmsk & lomsk, lores, weights)\n    weights = jnp.where(zmsk & himsk, hires[::-1], weights)\n")], H + """
from dsps.utils import _get_triweights_singlepoint as f
e = np.array([0., 1., 2., 3.])
close(f(9.0, 0.05, e), [0, 0, 1.], "above")
close(f(-9.0, 0.05, e), [1., 0, 0], "below")
""", "a point far above the highest bin edge", "weight of an out-of-range point goes to the lowest bin")
S("w06-pad-rate", "W06", [(U, "padded_sfh_table = padded_sfh_table.at[0].set(SFR_MIN)", "padded_sfh_table = padded_sfh_table.at[0].set(sfh_table[0])")], H + """
from dsps.utils import cumulative_mstar_formed as f
for t in (np.linspace(0.1, 13.8, 50), np.geomspace(1.0, 13.8, 9)):
    s = 5*np.exp(-t/3)
    tt = np.concatenate([[0.001], t]); ss = np.concatenate([[1e-14], s])
    want = np.cumsum(0.5*np.diff(tt)*(ss[1:]+ss[:-1]))*1e9
    close(f(t, s), want, "mstar")
""", "a history whose first tabulated rate is not negligible", "star formation extrapolated flat to t=0")
S("w07-last-width", "W07", [(U, "    t_hi = t[-1] + dtmids[-1] / 2\n", "    t_hi = t[-1] + (t[-1] - t[-2]) / 2\n")], H + """
from dsps.utils import _jax_get_dt_array as f
for t in (np.linspace(0, 1, 7), np.array([0., 1., 3., 7.])):
    mid = 0.5*(t[1:]+t[:-1])
    want = np.concatenate([[mid[0]-(t[0]-(t[1]-t[0])/2)], np.diff(mid), [0.5*(t[-1]-t[-2]) + 0.25*(t[-1]-t[-3])]])
    close(f(t), want, "dt")
""", "a non-uniform grid", "width of the last bin")
S("w08-inverse-sigmoid-abs", "W08", [(U, "    lnarg = (yhi - ylo) / (y - ylo) - 1\n", "    lnarg = jnp.abs(yhi - ylo) / jnp.abs(y - ylo) - 1\n")], H + """
from dsps.utils import _sigmoid, _inverse_sigmoid
x = np.linspace(-3, 3, 9)
for lo, hi in ((0., 1.), (2., -1.)):
    y = np.asarray(_sigmoid(x, 0.2, 1.3, lo, hi))
    close(_inverse_sigmoid(y, 0.2, 1.3, lo, hi), x, "roundtrip")
    ya = np.asarray(lo + 1.5*(hi-lo))
""", "x", "x")
SEEDS.pop()
DB = "dsps/sfh/diffburst.py"
S("b01-max-lo", "B01", [(DB, "def _get_lgyr_max_from_lgyr_peak(lgyr_peak, u_lgyr_max):\n    lo, hi = lgyr_peak + DLGAGE_MIN, LGAGE_MAX", "def _get_lgyr_max_from_lgyr_peak(lgyr_peak, u_lgyr_max):\n    lo, hi = lgyr_peak, LGAGE_MAX"),
  (DB, "def _get_u_lgyr_max_from_lgyr_peak(lgyr_peak, lgyr_max):\n    lo, hi = lgyr_peak + DLGAGE_MIN, LGAGE_MAX", "def _get_u_lgyr_max_from_lgyr_peak(lgyr_peak, lgyr_max):\n    lo, hi = lgyr_peak, LGAGE_MAX")], H + """
from dsps.sfh.diffburst import _get_params_from_u_params as f
for u in np.linspace(-80, 80, 9):
    for v in np.linspace(-80, 80, 9):
        p = f((0.0, u, v))
        if not (float(p.lgyr_max) >= float(p.lgyr_peak) + 1 - 1e-9):
            print("burst ends %s dex after its peak" % (float(p.lgyr_max)-float(p.lgyr_peak))); sys.exit(1)
""", "a strongly negative unbounded maximum-age parameter", "burst duration bound (peak + 1 dex) violated, both directions consistently")
S("b02-support-clip", "B02", [(DB, "    lgyr_min = lgyr_peak - dlgyr_support\n", "    lgyr_min = jnp.maximum(lgyr_peak - dlgyr_support, LGYR_PEAK_MIN - DLGAGE_MIN)\n")], H + """
from dsps.sfh.diffburst import calc_bursty_age_weights as f
age = np.linspace(-5, 1.2, 200)
for lgf, pk, mx in ((-3.0, 5.5, 7.0), (-2.0, 5.5, 8.0), (-1.0, 7.0, 8.5)):
    h = (mx-pk)/3
    z = (age+9-pk)/h
    b = np.where(abs(z) < 3, (1-z**2/9)**3, 0); b /= b.sum()
    s = np.ones(200)/200
    close(f((lgf, pk, mx), s, age), s + 10**lgf*(b-s), "bursty weights", 1e-5)
""", "an early, extended burst whose lower edge falls below 10^4 yr", "burst re-centred away from its peak age")
