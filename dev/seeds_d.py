import runpy
B = runpy.run_path("/verif/dev/seeds_b.py")
H = B["H"]
SEEDS = []
def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo.lstrip("\n"), needs=needs, breaks=breaks))
SM = "dsps/imf/surviving_mstar.py"
RM = "dsps/imf/remnant_mass.py"
DB = "dsps/sfh/diffburst.py"
AC = "dsps/dust/att_curves.py"
BB = "dsps/dust/blackbody.py"
DU = "dsps/dust/utils.py"
EW = "dsps/em_lines/equivalent_width.py"
UM = "dsps/metallicity/umzr.py"
MZ = "dsps/metallicity/mzr.py"
PK = "dsps/photometry/photometry_kernels.py"
FW = "dsps/cosmology/flat_wcdm.py"
SA = "dsps/sed/stellar_age_weights.py"

S("k02-remnant-kroupa", "K02", [(RM, "KROUPA_PARAMS.update(a=-1.45)", "KROUPA_PARAMS.update(a=-1.45, e=0.25)")], H + """
from dsps.imf import remnant_mass as r
ok(dict(r.KROUPA_PARAMS) == dict(a=-1.45, b=7, lgk1=1, d=1.3, e=0.2), r.KROUPA_PARAMS)
""", "Kroupa IMF at late ages", "late-time slope of the Kroupa remnant fraction")

S("k03-burst-peak", "K03", [(DB, "DEFAULT_BURST_PARAMS = BurstParams(-3.0, 5.5, 7.0)", "DEFAULT_BURST_PARAMS = BurstParams(lgfburst=-3.0, lgyr_max=7.0, lgyr_peak=5.75)")], H + """
from dsps.sfh import diffburst as d
ok(tuple(float(x) for x in d.DEFAULT_BURST_PARAMS) == (-3.0, 5.5, 7.0), d.DEFAULT_BURST_PARAMS)
""", "use of the default burst parameters", "default burst peaks at the wrong age")

S("d01-ftrans-floor", "D01", [(AC, "    ftrans = ftrans_floor + (1 - ftrans_floor) * ftrans\n", "    ftrans = jnp.where(av > 8.0, ftrans, ftrans_floor + (1 - ftrans_floor) * ftrans)\n")], H + """
from dsps.dust.att_curves import _frac_transmission_from_k_lambda as f
k = np.array([0.5, 2.0, 4.05])
close(f(k, 9.0, 0.1), 0.1 + 0.9*10**(-0.4*9.0*k/4.05), "very dusty with floor")
""", "Av above 8 with a transmission floor", "unobscured fraction lost for very dusty sightlines")

S("e01-cont-mid", "E01", [(EW, "continuum_strength_at_line = c0 + c1 * line_mid + c2 * line_mid**2", "line_mid = jnp.clip(line_mid, line_lo, line_hi)\n    continuum_strength_at_line = c0 + c1 * line_mid + c2 * line_mid**2")], H + """
from dsps.em_lines.equivalent_width import _ew_kernel as f
w = np.linspace(4900, 5100, 400); flux = 1 + 1e-3*(w - 4900) + np.exp(-0.5*((w - 5000)/3)**2)
a = (4990.0, 5012.0, 5010.0, 4930.0, 4960.0, 5040.0, 5070.0)
ew, tot = f(w, flux, *a)
close(ew, tot/(1 + 1e-3*(5012.0 - 4900)), "equivalent width", 1e-4)
""", "a line centre outside the integration window", "continuum evaluated at the window's edge")

S("f05-weff-clip", "F05", [(DU, "    lambda_eff = lambda_eff_rest / (1 + redshift)", "    lambda_eff = lambda_eff_rest / max_zp1(redshift)"), (DU, "@jjit\ndef get_filter_effective_wavelength", "def max_zp1(redshift):\n    return jnp.clip(1 + redshift, 1.0, 11.0)\n\n\n@jjit\ndef get_filter_effective_wavelength"), (DU, "from jax import jit as jjit\n", "from jax import jit as jjit\nfrom jax import numpy as jnp\n")], H + """
from dsps.dust.utils import get_filter_effective_wavelength as f
w = np.linspace(4000, 5000, 101); t = np.ones(101)
close(f(w, t, 14.0), f(w, t, 0.0)/15, "z=14")
""", "redshift above 10", "effective wavelength stops shifting")

S("c03-delta-clip", "C03", [(FW, "    x = _Om(z, Om0, w0, wa) - 1.0\n", "    x = jnp.clip(_Om(z, Om0, w0, wa) - 1.0, -0.8, 0.0)\n")], H + """
from dsps.cosmology import flat_wcdm as f
z = np.array([0.0])
x = 0.1 - 1
close(f._delta_vir(z, 0.1, -1.0, 0.0), 18*np.pi**2 + 82*x - 39*x*x, "overdensity at low Om0")
""", "matter fraction below 0.2", "overdensity fit clamped")

S("d02-noll-ir", "D02", [(AC, "    k_lambda = jnp.where(wave_micron > xc, k_lambda_c00, k_lambda_l02)\n    return k_lambda", "    k_lambda = jnp.where(wave_micron > xc, k_lambda_c00, k_lambda_l02)\n    return jnp.where(wave_micron > 2.0, 0.0, k_lambda)")], H + """
from dsps.dust.att_curves import sbl18_k_lambda as f
w = np.array([2.05, 2.1])
r = np.asarray(f(w, uv_bump_ampl=1.0, plaw_slope=0.3))
k = 2.659*(-1.857 + 1.040/w) + 4.05
b = 1.0*(w*0.035)**2/((w**2 - 0.2175**2)**2 + (w*0.035)**2)
ok(np.all(r > 0.5*k), (r, k))
""", "wavelengths between 2.0 and 2.19 micron", "attenuation in the K band set to zero")
