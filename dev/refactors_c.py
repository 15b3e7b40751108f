"""behaviour-preserving edits, batch C: structural rewrites (other control flow, other library calls, moved code)"""
import re
U = "dsps/utils.py"
SA = "dsps/sed/stellar_age_weights.py"
MW = "dsps/sed/metallicity_weights.py"
SW = "dsps/sed/ssp_weights.py"
SS = "dsps/sed/stellar_sed.py"
PK = "dsps/photometry/photometry_kernels.py"
PP = "dsps/photometry/photpop.py"
PU = "dsps/photometry/utils.py"
FW = "dsps/cosmology/flat_wcdm.py"
CD = "dsps/cosmology/defaults.py"
DB = "dsps/sfh/diffburst.py"
AC = "dsps/dust/att_curves.py"
BB = "dsps/dust/blackbody.py"
DU = "dsps/dust/utils.py"
EW = "dsps/em_lines/equivalent_width.py"
RM = "dsps/imf/remnant_mass.py"
SM = "dsps/imf/surviving_mstar.py"
MZ = "dsps/metallicity/mzr.py"
UM = "dsps/metallicity/umzr.py"
REFS = []


def R(id, *edits, **kw):
    REFS.append(dict(id=id, edits=[tuple(e) for e in edits], **kw))


def body(f, name, new):
    """replace a whole function's source (decorators kept)"""
    src = open("/repo/" + f).read()
    m = re.search(r"^def %s\(.*?(?=^\S(?<!\)))" % name, src, re.S | re.M)
    assert m, name
    return f, m.group(0).rstrip("\n"), new.rstrip("\n")


# ---- utils
R("c-cumtrapz-for", body(U, "cumtrapz", '''def cumtrapz(xarr, yarr):
    """Cumulative trapezoidal integral"""
    def step(acc, seg):
        x0, x1, y0, y1 = seg
        acc = acc + 0.5 * (x1 - x0) * (y0 + y1)
        return acc, acc

    segs = (xarr[:-1], xarr[1:], yarr[:-1], yarr[1:])
    _, out = scan(step, 0.0, segs)
    return jnp.append(jnp.zeros(1), out)
'''))
R("c-cumtrapz-pad", body(U, "cumtrapz", '''def cumtrapz(xarr, yarr):
    areas = 0.5 * jnp.diff(xarr) * (yarr[1:] + yarr[:-1])
    return jnp.pad(jnp.cumsum(areas), (1, 0))
'''))
R("c-cumtrapz-concat0", body(U, "cumtrapz", '''def cumtrapz(xarr, yarr):
    ybar = (yarr[1:] + yarr[:-1]) / 2.0
    areas = jnp.concatenate((jnp.array([0.0]), jnp.diff(xarr) * ybar))
    return jnp.cumsum(areas)
'''))
R("c-trapz-mean", body(U, "trapz", '''def trapz(xarr, yarr):
    dx = xarr[1:] - xarr[:-1]
    mean = (yarr[1:] + yarr[:-1]) / 2
    return jnp.sum(dx * mean)
'''))
R("c-trapz-vdot", body(U, "trapz", '''def trapz(xarr, yarr):
    return 0.5 * jnp.vdot(jnp.diff(xarr), yarr[1:] + yarr[:-1])
'''))
R("c-trapz-kw", body(U, "trapz", '''def trapz(xarr, yarr):
    return jnp.trapezoid(y=yarr, x=xarr, axis=-1)
'''))
R("c-mstar-scale-first", (U, '''    mstar_formed = cumtrapz(padded_t_table, padded_sfh_table)[1:] * YEAR_PER_GYR

    return mstar_formed''', '''    padded_t_yr = padded_t_table * YEAR_PER_GYR
    return cumtrapz(padded_t_yr, padded_sfh_table)[1:]'''))
R("c-mstar-first-plus", (U, '''    n_t = t_table.size

    padded_t_table = jnp.zeros(n_t + 1)
    padded_t_table = padded_t_table.at[0].set(T_BIRTH_MIN)
    padded_t_table = padded_t_table.at[1:].set(t_table)

    padded_sfh_table = jnp.zeros(n_t + 1)
    padded_sfh_table = padded_sfh_table.at[0].set(SFR_MIN)
    padded_sfh_table = padded_sfh_table.at[1:].set(sfh_table)

    mstar_formed = cumtrapz(padded_t_table, padded_sfh_table)[1:] * YEAR_PER_GYR

    return mstar_formed''', '''    first = (t_table[0] - T_BIRTH_MIN) * (SFR_MIN + sfh_table[0]) / 2.0
    rest = cumtrapz(t_table, sfh_table)
    return (first + rest) * YEAR_PER_GYR'''))
R("c-tw-select", (U, '''    val = jnp.where(z < -3, 0, val)
    val = jnp.where(z > 3, 1, val)
    return val''', '''    return jnp.where(z > 3, 1, jnp.where(z < -3, 0, val))'''))
R("c-tw-clipz", (U, '''    z = (x - m) / h
    val = -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 1 / 2
    val = jnp.where(z < -3, 0, val)
    val = jnp.where(z > 3, 1, val)
    return val''', '''    z = jnp.clip((x - m) / h, -3, 3)
    return -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 1 / 2'''))
R("c-tw-polyval", (U, '''    val = -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 1 / 2
''', '''    coeffs = jnp.array([-5 / 69984, 0, 7 / 2592, 0, -35 / 864, 0, 35 / 96, 0.5])
    val = jnp.polyval(coeffs, z)
'''))
R("c-twg-where-in", (U, '''    val = 35 / 96 * (1 - (z / 3) ** 2) ** 3 / h
    msk = (z < -3) | (z > 3)
    return jnp.where(msk, 0, val)''', '''    u = 1 - z * z / 9
    return jnp.where(jnp.abs(z) <= 3, 35 / 96 * u * u * u / h, 0.0)'''))
R("c-twg-maxu", (U, '''    val = 35 / 96 * (1 - (z / 3) ** 2) ** 3 / h
    msk = (z < -3) | (z > 3)
    return jnp.where(msk, 0, val)''', '''    u = jnp.maximum(1 - (z / 3) ** 2, 0)
    return 35 / 96 * u**3 / h'''))
R("c-hist-list", (U, '''    return _triweighted_histogram_vmap(x, sig, xbins[:-1], xbins[1:])''', '''    lo_edges, hi_edges = xbins[:-1], xbins[1:]
    kern = lambda lo, hi: _triweighted_histogram_kernel(x, sig, lo, hi)
    return vmap(kern)(lo_edges, hi_edges)'''))
R("c-fill-onehot", (U, '''    lores = jnp.zeros(bin_edges.size - 1)
    hires = jnp.zeros(bin_edges.size - 1)

    lores = lores.at[0].set(1.0)
    hires = hires.at[-1].set(1.0)
''', '''    idx = jnp.arange(bin_edges.size - 1)
    lores = jnp.where(idx == 0, 1.0, 0.0)
    hires = jnp.where(idx == bin_edges.size - 2, 1.0, 0.0)
'''))
R("c-fill-nested", (U, '''    weights = jnp.where(zmsk & lomsk, lores, weights)
    weights = jnp.where(zmsk & himsk, hires, weights)
    return weights''', '''    fallback = jnp.where(lomsk, lores, jnp.where(himsk, hires, weights))
    return jnp.where(zmsk, fallback, weights)'''))
R("c-triw-delegate", (MW, '''    tw_hist_results = triweighted_histogram(
        gal_lgmet, gal_lgmet_scatter, lgmetbin_edges
    )

    tw_hist_results_sum = jnp.sum(tw_hist_results, axis=0)

    zmsk = tw_hist_results_sum == 0
    tw_hist_results_sum = jnp.where(zmsk, 1.0, tw_hist_results_sum)
    weights = tw_hist_results / tw_hist_results_sum

    return _fill_empty_weights_singlepoint(gal_lgmet, lgmetbin_edges, weights)''', '''    hist = triweighted_histogram(gal_lgmet, gal_lgmet_scatter, lgmetbin_edges)
    total = hist.sum()
    weights = jnp.where(total == 0, hist, hist / jnp.where(total == 0, 1.0, total))
    return _fill_empty_weights_singlepoint(gal_lgmet, lgmetbin_edges, weights)'''))
R("c-invsig-logit", (U, '''    lnarg = (yhi - ylo) / (y - ylo) - 1
    return x0 - lax.log(lnarg) / k''', '''    return x0 + (jnp.log(y - ylo) - jnp.log(yhi - y)) / k'''))
R("c-sig-tanh", (U, '''    height_diff = yhi - ylo
    return ylo + height_diff * nn.sigmoid(k * (x - x0))''', '''    return 0.5 * (yhi + ylo) + 0.5 * (yhi - ylo) * jnp.tanh(0.5 * k * (x - x0))'''))
R("c-sig-exp", (U, '''    height_diff = yhi - ylo
    return ylo + height_diff * nn.sigmoid(k * (x - x0))''', '''    height_diff = yhi - ylo
    return ylo + height_diff / (1 + lax.exp(-k * (x - x0)))'''))
R("c-mult-einsum", (U, '''_get_weight_matrices_2d = jjit(vmap(_mult_2d_vmap, in_axes=[0, 0]))''', '''@jjit
def _get_weight_matrices_2d(w1, w2):
    return jnp.einsum("ij,ik->ijk", w1, w2)'''))
R("c-mult-bcast", (U, '''_get_weight_matrices_3d = jjit(vmap(_mult_3d_vmap, in_axes=[0, 0, 0]))''', '''@jjit
def _get_weight_matrices_3d(w1, w2, w3):
    return w1[:, :, None, None] * w2[:, None, :, None] * w3[:, None, None, :]'''))
R("c-rvs-exp", (U, '''    return (ag + (bg - ag) * r) ** (1.0 / g)''', '''    return jnp.power((1 - r) * ag + r * bg, 1.0 / g)'''))
R("c-rvs-shape", (U, '''    npts = a.shape[0]
    r = jran.uniform(ran_key, (npts,))''', '''    r = jran.uniform(ran_key, shape=a.shape)'''))
R("c-rvs-len", (U, '''    npts = a.shape[0]
    r = jran.uniform(ran_key, (npts,))''', '''    r = jran.uniform(key=ran_key, shape=(len(a),), minval=0.0, maxval=1.0)'''))
R("c-edges-interleave", (U, '''    bin_edges = jnp.zeros(dbins.size + 1)
    bin_edges = bin_edges.at[:-1].set(bin_mids - dbins / 2)

    bin_edges = bin_edges.at[0].set(lowest_bin_edge)
    bin_edges = bin_edges.at[-1].set(highest_bin_edge)

    return bin_edges''', '''    inner = (bin_mids - dbins / 2)[1:]
    first = jnp.full(1, lowest_bin_edge)
    last = jnp.full(1, highest_bin_edge)
    return jnp.concatenate([first, inner, last])'''))
R("c-dt-two-sided", (U, '''    dt = jnp.zeros_like(t, dtype=tmids.dtype)
    dtmids = jnp.diff(tmids)

    dt = dt.at[1:-1].set(dtmids)

    t_lo = t[0] - (t[1] - t[0]) / 2
    t_hi = t[-1] + dtmids[-1] / 2

    dt = dt.at[0].set(tmids[0] - t_lo)
    dt = dt.at[-1].set(t_hi - tmids[-1])
    return dt''', '''    dtmids = jnp.diff(tmids)
    lo = t[0] - (t[1] - t[0]) / 2
    hi = t[-1] + dtmids[-1] / 2
    walls = jnp.concatenate((lo[None], tmids, hi[None]))
    return jnp.diff(walls)'''))
# ---- ages
R("c-age-inline-birth", (SA, '''    t_birth = t_obs - 10**lg_ages
    t_birth = jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN, t_birth)
    lgt_birth = jnp.log10(t_birth)
    return lgt_birth''', '''    ages = jnp.power(10.0, lg_ages)
    ok = t_obs - ages >= T_BIRTH_MIN
    return jnp.log10(jnp.where(ok, t_obs - ages, T_BIRTH_MIN))'''))
R("c-age-logmax", (SA, '''    t_birth = jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN, t_birth)
    lgt_birth = jnp.log10(t_birth)
    return lgt_birth''', '''    return jnp.maximum(jnp.log10(jnp.maximum(t_birth, T_BIRTH_MIN)), jnp.log10(T_BIRTH_MIN))'''))
R("c-age-flip", (SA, '''    delta_mstar_at_t_birth = -jnp.diff(10**logsm_at_t_birth_bin_edges)
    age_weights = delta_mstar_at_t_birth / delta_mstar_at_t_birth.sum()''', '''    sm = jnp.power(10, logsm_at_t_birth_bin_edges)
    delta = jnp.flip(jnp.diff(jnp.flip(sm)))
    age_weights = delta / jnp.sum(delta)'''))
R("c-age-neg-norm", (SA, '''    delta_mstar_at_t_birth = -jnp.diff(10**logsm_at_t_birth_bin_edges)
    age_weights = delta_mstar_at_t_birth / delta_mstar_at_t_birth.sum()''', '''    delta = jnp.diff(10**logsm_at_t_birth_bin_edges)
    age_weights = delta / delta.sum()'''))
R("c-age-lnexp", (SA, '''    delta_mstar_at_t_birth = -jnp.diff(10**logsm_at_t_birth_bin_edges)
''', '''    mstar_edges = jnp.exp(jnp.log(10.0) * logsm_at_t_birth_bin_edges)
    delta_mstar_at_t_birth = mstar_edges[:-1] - mstar_edges[1:]
'''))
R("c-age-vmap-interp", (SA, '''    logsm_at_t_birth_bin_edges = jnp.interp(lgt_birth_bin_edges, lgt_table, logsm_table)
''', '''    logsm_at_t_birth_bin_edges = jax.vmap(
        lambda x: jnp.interp(x, lgt_table, logsm_table)
    )(lgt_birth_bin_edges)
'''))
R("c-age-retonly", (SA, '''    age_weights = _calc_age_weights_from_logsm_table(
        gal_lgt_table, logsm_table, ssp_lg_age_gyr, t_obs
    )[1]
    return age_weights''', '''    _, age_weights = _calc_age_weights_from_logsm_table(
        lgt_table=gal_lgt_table,
        logsm_table=logsm_table,
        ssp_lg_age_gyr=ssp_lg_age_gyr,
        t_obs=t_obs,
    )
    return age_weights'''))
R("c-age-edges-util", (SA, '''    dlgtau = _jax_get_dt_array(lg_ages)

    lg_age_bin_edges = jnp.zeros(dlgtau.size + 1)
    lg_age_bin_edges = lg_age_bin_edges.at[:-1].set(lg_ages - dlgtau / 2)

    dlowest = (lg_ages[1] - lg_ages[0]) / 2
    lowest = lg_ages[0] - dlowest
    highest = lg_ages[-1] + dlgtau[-1] / 2
    lg_age_bin_edges = lg_age_bin_edges.at[0].set(lowest)
    lg_age_bin_edges = lg_age_bin_edges.at[-1].set(highest)

    return lg_age_bin_edges''', '''    dlgtau = _jax_get_dt_array(lg_ages)
    lowest = 1.5 * lg_ages[0] - 0.5 * lg_ages[1]
    highest = lg_ages[-1] + 0.5 * dlgtau[-1]
    return _get_bin_edges(lg_ages, lowest, highest)'''), (SA, "from ..utils import _jax_get_dt_array, cumulative_mstar_formed", "from ..utils import _get_bin_edges, _jax_get_dt_array, cumulative_mstar_formed"))
# ---- metallicity weights
R("c-met-T", (MW, '''    lgmet_weight_matrix = jnp.swapaxes(lgmet_weight_matrix, 1, 0)

    return lgmet_weight_matrix''', '''    return lgmet_weight_matrix.T'''))
R("c-met-lenage", (MW, '''    lgmet_weight_matrix = lgmet_weight_matrix / ssp_lg_age_gyr.size
''', '''    n_met, n_age = lgmet_weight_matrix.shape[1], lgmet_weight_matrix.shape[0]
    lgmet_weight_matrix = lgmet_weight_matrix * (1.0 / n_age)
'''))
R("c-met-interp-hoist", (MW, '''    lgt_table = jnp.log10(gal_t_table)
    lgt_birth = _get_lgt_birth(t_obs, ssp_lg_age_gyr)
    lgmet_at_ssp_lgages = jnp.interp(lgt_birth, lgt_table, gal_lgmet_table)
    return lgmet_at_ssp_lgages''', '''    x = _get_lgt_birth(lg_ages=ssp_lg_age_gyr, t_obs=t_obs)
    return jnp.interp(x=x, xp=jnp.log10(gal_t_table), fp=gal_lgmet_table)'''))
R("c-met-map", (MW, '''    lgmet_weight_matrix = _get_lgmet_weights_singlegal_zh(
        lgmet_at_ssp_lgages, gal_lgmet_scatter, lgmetbin_edges
    )
''', '''    def _one_age(lgmet):
        return _get_lgmet_weights_singlegal(lgmet, gal_lgmet_scatter, lgmetbin_edges)

    lgmet_weight_matrix = jax.lax.map(_one_age, lgmet_at_ssp_lgages)
'''))
# ---- joint weights
R("c-ssp-outer-norm", (SW, '''    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))
    weights = weights / weights.sum()

    return SSPWeights(weights, lgmet_weights, age_weights)''', '''    weights = jnp.outer(lgmet_weights, age_weights)
    return SSPWeights(
        weights=weights / jnp.sum(weights, axis=(0, 1)),
        age_weights=age_weights,
        lgmet_weights=lgmet_weights,
    )'''))
R("c-ssp-common", (SW, '''    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))
    weights = weights / weights.sum()

    return SSPWeights(weights, lgmet_weights, age_weights)''', '''    return _joint(lgmet_weights[:, jnp.newaxis], lgmet_weights, age_weights)'''), (SW, '''    weights = lgmet_weights * age_weights.reshape((1, -1))
    weights = weights / weights.sum()

    return SSPWeights(weights, lgmet_weights, age_weights)''', '''    return _joint(lgmet_weights, lgmet_weights, age_weights)'''), (SW, '''@jjit
def calc_ssp_weights_sfh_table_lognormal_mdf(''', '''def _joint(matrix, lgmet_weights, age_weights):
    w = matrix * age_weights[jnp.newaxis, :]
    return SSPWeights(w / w.sum(), lgmet_weights, age_weights)


@jjit
def calc_ssp_weights_sfh_table_lognormal_mdf('''))
R("c-ssp-bcastto", (SW, '''    weights = lgmet_weights * age_weights.reshape((1, -1))
    weights = weights / weights.sum()''', '''    weights = lgmet_weights * jnp.broadcast_to(age_weights, lgmet_weights.shape)
    norm = weights.sum(axis=0).sum()
    weights = weights / norm'''))
# ---- SED
SEDBLK = '''    n_met, n_ages = weights.shape
    sed_unit_mstar = jnp.sum(
        ssp_flux * weights.reshape((n_met, n_ages, 1)), axis=(0, 1)
    )

    lgt_obs = jnp.log10(t_obs)
    lgt_table = jnp.log10(gal_t_table)
    logsm_table = _calc_logsm_table_from_sfh_table(gal_t_table, gal_sfr_table, sfr_min)
    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table)
    mstar_obs = 10**logsm_obs
    rest_sed = sed_unit_mstar * mstar_obs
'''
R("c-sed-twostep-sum", (SS, '''    sed_unit_mstar = jnp.sum(
        ssp_flux * weights.reshape((n_met, n_ages, 1)), axis=(0, 1)
    )
''', '''    weighted = weights[..., None] * ssp_flux
    sed_unit_mstar = weighted.sum(axis=1).sum(axis=0)
'''), many=True)
R("c-sed-helper", (SS, SEDBLK, '''    rest_sed = _combine(weights, ssp_flux, _mass_at(t_obs, gal_t_table, gal_sfr_table, sfr_min))
'''), (SS, '''class RestSED(typing.NamedTuple):''', '''def _mass_at(t_obs, t, sfr, sfr_min):
    lgsm = _calc_logsm_table_from_sfh_table(t, sfr, sfr_min)
    return 10 ** jnp.interp(jnp.log10(t_obs), jnp.log10(t), lgsm)


def _combine(weights, flux, mass):
    n_wave = flux.shape[-1]
    return mass * jnp.dot(weights.reshape(-1), flux.reshape((-1, n_wave)))


class RestSED(typing.NamedTuple):'''), many=True)
R("c-sed-mass-weights", (SS, SEDBLK, '''    logsm_table = _calc_logsm_table_from_sfh_table(gal_t_table, gal_sfr_table, sfr_min)
    mstar_obs = 10 ** jnp.interp(jnp.log10(t_obs), jnp.log10(gal_t_table), logsm_table)
    mass_per_ssp = mstar_obs * weights
    rest_sed = jnp.einsum("ma,maw->w", mass_per_ssp, ssp_flux)
'''), many=True)
R("c-sed-vmap-wave", (SS, '''    sed_unit_mstar = jnp.sum(
        ssp_flux * weights.reshape((n_met, n_ages, 1)), axis=(0, 1)
    )
''', '''    sed_unit_mstar = jax.vmap(
        lambda f: jnp.sum(f * weights), in_axes=2
    )(ssp_flux)
'''), many=True)
# ---- cosmology
R("c-cosmo-ode", (FW, '''    a = 1.0 / (1.0 + z)
    de_z = a ** (-3.0 * (1.0 + w0 + wa)) * lax.exp(-3.0 * wa * (1.0 - a))
    return de_z''', '''    zp1 = 1.0 + z
    return jnp.power(zp1, 3.0 * (1.0 + w0 + wa)) * jnp.exp(-3.0 * wa * z / zp1)'''))
R("c-cosmo-explog", (FW, '''    a = 1.0 / (1.0 + z)
    de_z = a ** (-3.0 * (1.0 + w0 + wa)) * lax.exp(-3.0 * wa * (1.0 - a))
    return de_z''', '''    lnzp1 = jnp.log1p(z)
    return jnp.exp(3.0 * ((1.0 + w0 + wa) * lnzp1 - wa * z / (1.0 + z)))'''))
R("c-cosmo-integrand", (FW, '''    z_table = jnp.linspace(0, redshift, 512)
    integrand = 1 / _Ez(z_table, Om0, w0, wa) / (1 + z_table)
    res = trapz(z_table, integrand)
    th = _hubble_time(0.0, Om0, w0, wa, h)
    return th * res''', '''    z_table = jnp.linspace(0, redshift, 512)
    res = trapz(z_table, _integrand_oneOverEz1pz(z_table, Om0, w0, wa))
    return _hubble_time(0.0, Om0, w0, wa, h) * res'''))
R("c-cosmo-shared", (FW, '''    integrand = 1 / _Ez(z_table, Om0, w0, wa) / (1 + z_table)
    res = trapz(z_table, integrand)
    th = _hubble_time(0.0, Om0, w0, wa, h)
    return th * res''', '''    return _time_integral(z_table, Om0, w0, wa, h)'''), (FW, '''@jjit
def lookback_to_z(''', '''def _time_integral(z_table, Om0, w0, wa, h):
    zp1 = 1 + z_table
    kern = 1 / (_Ez(z_table, Om0, w0, wa) * zp1)
    return trapz(z_table, kern * _hubble_time(0.0, Om0, w0, wa, h))


@jjit
def lookback_to_z('''), many=True)
R("c-cosmo-hubble-unit", (FW, '''    E0 = _Ez(z, Om0, w0, wa)
    htime = 1e-16 * MPC / YEAR / h / E0
    return htime''', '''    return (MPC / YEAR) * 1e-16 / (h * _Ez(z, Om0, w0, wa))'''))
R("c-cosmo-linspace-scale", (FW, '''    z_table = jnp.linspace(0, redshift, 256)
''', '''    z_table = redshift * jnp.linspace(0, 1, 256)
'''))
R("c-cosmo-age-atl", (FW, '''    return _age_at_z_vmap(jnp.atleast_1d(redshift), Om0, w0, wa, h)''', '''    z = jnp.atleast_1d(redshift)
    t0 = age_at_z0(Om0, w0, wa, h)
    return t0 - lookback_time(z, Om0, w0, wa, h)'''))
R("c-cosmo-dmod", (FW, '''    mu = 5.0 * jnp.log10(d_lum * 1e5)
    return mu''', '''    return 5.0 * jnp.log10(d_lum) + 25.0'''))
R("c-cosmo-vir", (FW, '''    x = _Om(z, Om0, w0, wa) - 1.0
    Delta = 18 * jnp.pi**2 + 82.0 * x - 39.0 * x**2
    return Delta''', '''    x = _Om(z, Om0, w0, wa) - 1.0
    return jnp.polyval(jnp.array([-39.0, 82.0, 18 * jnp.pi**2]), x)'''))
R("c-cosmo-om-inline", (FW, '''    E = _Ez(z, Om0, w0, wa)
    return Om0 * (1.0 + z) ** 3 / E / E''', '''    mat = Om0 * (1.0 + z) ** 3
    de = (1.0 - Om0) * _rho_de_z(z, w0, wa)
    return mat / (mat + de)'''))
R("c-cosmo-today", (CD, '''TODAY = age_at_z0(*DEFAULT_COSMOLOGY)''', '''TODAY = age_at_z0(
    DEFAULT_COSMOLOGY.Om0, DEFAULT_COSMOLOGY.w0, DEFAULT_COSMOLOGY.wa, DEFAULT_COSMOLOGY.h
)'''))
R("c-cosmo-kwparams", (FW, '''WMAP5 = CosmoParams(0.277, -1.0, 0.0, 0.702)''', '''WMAP5 = PLANCK15._replace(Om0=0.277, h=0.702)'''))
R("c-cosmo-vec", (FW, '''distance_modulus = jjit(vmap(distance_modulus_to_z, in_axes=_A))
luminosity_distance = jjit(vmap(luminosity_distance_to_z, in_axes=_A))
angular_diameter_distance = jjit(vmap(angular_diameter_distance_to_z, in_axes=_A))
''', '''

def _over_z(func):
    return jjit(vmap(func, in_axes=_A))


distance_modulus = _over_z(distance_modulus_to_z)
luminosity_distance = _over_z(luminosity_distance_to_z)
angular_diameter_distance = _over_z(angular_diameter_distance_to_z)
'''))
# ---- bursts
R("c-burst-replace", (DB, '''    burst_params = BurstParams(*burst_params)

    ssp_lg_age_yr = ssp_lg_age_gyr + 9.0
    burst_weights = _pureburst_age_weights_from_params(
        ssp_lg_age_yr, burst_params.lgyr_peak, burst_params.lgyr_max
    )

    fb = 10**burst_params.lgfburst
    age_weights = fb * burst_weights + (1 - fb) * smooth_age_weights

    return age_weights''', '''    return _compute_bursty_age_weights_from_params(
        ssp_lg_age_gyr + 9.0, smooth_age_weights, tuple(burst_params)
    )'''))
R("c-burst-h", (DB, '''    dlgyr_support = lgyr_max - lgyr_peak
    lgyr_min = lgyr_peak - dlgyr_support
    twx0 = 0.5 * (lgyr_min + lgyr_max)

    dlgyr = lgyr_max - lgyr_min
    twh = dlgyr / 6

    tw_gauss = triweight_gaussian(lgyr, twx0, twh)
''', '''    tw_gauss = triweight_gaussian(lgyr, lgyr_peak, (lgyr_max - lgyr_peak) / 3)
'''))
R("c-burst-norm", (DB, '''    s = jnp.sum(x)
    s = jnp.where(s <= 0, 1, s)
    return x / s''', '''    total = x.sum()
    return jnp.where(total > 0, x / jnp.where(total > 0, total, 1.0), x)'''))
R("c-burst-bound-helper", (DB, '''    lo, hi = lgyr_peak + DLGAGE_MIN, LGAGE_MAX
    x0 = 0.5 * (hi + lo)
    lgyr_max = _sigmoid(u_lgyr_max, x0, LGAGE_K, lo, hi)
    return lgyr_max''', '''    bounds = (lgyr_peak + DLGAGE_MIN, LGAGE_MAX)
    return _sigmoid(u_lgyr_max, sum(bounds) / 2, LGAGE_K, *bounds)'''))
R("c-burst-nt", (DB, '''    u_lgfburst, u_lgyr_peak, u_lgyr_max = u_params
    lgfburst = _get_lgfburst_from_u_lgfburst(u_lgfburst)
    lgyr_peak, lgyr_max = _get_tburst_params_from_tburst_u_params(
        u_lgyr_peak, u_lgyr_max
    )
    params = BurstParams(lgfburst, lgyr_peak, lgyr_max)
    return params''', '''    u = BurstUParams(*u_params)
    peak = _get_lgyr_peak_from_u_lgyr_peak(u.u_lgyr_peak)
    return BurstParams(
        lgyr_max=_get_lgyr_max_from_lgyr_peak(peak, u.u_lgyr_max),
        lgyr_peak=peak,
        lgfburst=_get_lgfburst_from_u_lgfburst(u.u_lgfburst),
    )'''))
# ---- photometry
R("c-phot-lnwave", (PK, '''    integrand = trans_filter * AB0 / wave_filter
    lum_ab0_filter = trapz(wave_filter, integrand)
    return lum_ab0_filter''', '''    return AB0 * trapz(wave_filter, trans_filter / wave_filter)'''))
R("c-phot-oneflux", (PK, '''    lum_phot = jnp.interp(wave_filter, wave_spec_rest, lum_spec, left=0, right=0)
    integrand = trans_filter * lum_phot / wave_filter
    lum_filter = trapz(wave_filter, integrand)
    return lum_filter''', '''    return _obs_flux_ssp(wave_spec_rest, lum_spec, wave_filter, trans_filter, 0.0)'''))
R("c-phot-obsnodim", (PK, '''    flux_source = _obs_flux_ssp(
        wave_spec_rest, lum_spec, wave_filter, trans_filter, redshift
    )
    flux_ab0 = _flux_ab0_at_10pc(wave_filter, trans_filter)
    mag_no_dimming = -2.5 * jnp.log10(flux_source / flux_ab0)
    dimming''', '''    mag_no_dimming = _calc_obs_mag_no_dimming(
        wave_spec_rest, lum_spec, wave_filter, trans_filter, redshift
    )

    dimming'''))
R("c-phot-filterrest", (PK, '''    lum_zshift_phot = jnp.interp(
        wave_filter, wave_spec_rest * (1 + z), lum_spec, left=0, right=0
    )
''', '''    lum_zshift_phot = jnp.interp(
        wave_filter / (1 + z), wave_spec_rest, lum_spec, left=0, right=0
    )
'''))
R("c-phot-mask", (PK, '''    lum_phot = jnp.interp(wave_filter, wave_spec_rest, lum_spec, left=0, right=0)
''', '''    inside = (wave_filter >= wave_spec_rest[0]) & (wave_filter <= wave_spec_rest[-1])
    lum_phot = jnp.where(inside, jnp.interp(wave_filter, wave_spec_rest, lum_spec), 0.0)
'''))
R("c-pop-nested-fn", (PP, '''    ssp_restmag_table = _calc_rest_mag_vmap_f_ssp(
        ssp_wave, ssp_fluxes, filter_waves, filter_trans
    )
    return ssp_restmag_table''', '''    def one_filter(spec, fw, ft):
        return calc_rest_mag(ssp_wave, spec, fw, ft)

    def one_spec(spec):
        return vmap(one_filter, in_axes=(None, 0, 0))(spec, filter_waves, filter_trans)

    return vmap(vmap(one_spec))(ssp_fluxes)'''))
R("c-pop-flat", (PP, '''    ssp_restmag_table = _calc_obs_mag_no_dimming_f_ssp(
        ssp_wave, ssp_fluxes, filter_waves, filter_trans, z_kcorrect
    )
    return ssp_restmag_table''', '''    n_met, n_age, n_wave = ssp_fluxes.shape
    flat = ssp_fluxes.reshape((n_met * n_age, n_wave))
    mags = vmap(_calc_obs_mag_no_dimming_f, in_axes=_ssp2)(
        ssp_wave, flat, filter_waves, filter_trans, z_kcorrect
    )
    return mags.reshape((n_met, n_age, filter_waves.shape[0]))'''))
R("c-pop-outaxes", (PP, '''    ssp_obsmag_table = _calc_obs_mag_vmap_f_ssp_z(
        ssp_wave, ssp_fluxes, filter_waves, filter_trans, z_table, Om0, w0, wa, h
    )
    return ssp_obsmag_table''', '''    at_z = lambda z: _calc_obs_mag_vmap_f_ssp(
        ssp_wave, ssp_fluxes, filter_waves, filter_trans, z, Om0, w0, wa, h
    )
    return vmap(at_z)(z_table)'''))
R("c-filt-listcomp", (PU, '''    wave_collector = []
    trans_collector = []
    for wave, trans in zip(wave_filters, trans_filters):
        wave_min, wave_max = wave.min(), wave.max()
        new_wave = np.linspace(wave_min, wave_max, n)
        new_trans = np.interp(new_wave, wave, trans)
        wave_collector.append(new_wave)
        trans_collector.append(new_trans)
    return np.array(wave_collector), np.array(trans_collector)''', '''    new_waves = np.array([np.linspace(w.min(), w.max(), n) for w in wave_filters])
    new_trans = np.array(
        [np.interp(x, w, t) for x, w, t in zip(new_waves, wave_filters, trans_filters)]
    )
    return new_waves, new_trans'''))
# ---- EW
R("c-ew-lstsq-solve", (EW, '''    continuum_flux_integral = trapz(wave, continuum_integrand)
    spec_flux_integral = trapz(wave, spec_integrand)
    total_line_flux = spec_flux_integral - continuum_flux_integral
''', '''    total_line_flux = trapz(wave, spec_integrand - continuum_integrand)
'''), many=True)
R("c-ew-polyval", (EW, '''    continuum_strength_at_line = c0 + c1 * line_mid + c2 * line_mid**2
''', '''    continuum_strength_at_line = (c2 * line_mid + c1) * line_mid + c0
'''), many=True)
R("c-ew-mask-logical", (EW, '''    msk_lo = (x >= x1) & (x <= x2)
    msk_hi = (x >= x3) & (x <= x4)
    msk = msk_lo | msk_hi
    return jnp.where(msk, 1, 0)''', '''    msk = jnp.logical_or(
        jnp.logical_and(x >= x1, x <= x2), jnp.logical_and(x >= x3, x <= x4)
    )
    return 1 * msk'''))
R("c-ew-scale-norm", (EW, '''    scale = jnp.sqrt((lhs * lhs).sum(axis=0))
''', '''    scale = jnp.linalg.norm(lhs, axis=0)
'''))
R("c-ew-vander-stack", (EW, '''    lhs = jnp.vander(x, deg + 1)
''', '''    lhs = jnp.stack([x**2, x, jnp.ones_like(x)], axis=1)
'''))
# ---- dust
R("c-dust-weff", (DU, '''    norm = trapz(filter_wave, filter_trans)
    lambda_eff_rest = trapz(filter_wave, filter_trans * filter_wave) / norm
    lambda_eff = lambda_eff_rest / (1 + redshift)
    return lambda_eff''', '''    num = trapz(filter_wave, filter_trans * filter_wave)
    den = trapz(filter_wave, filter_trans) * (1 + redshift)
    return num / den'''))
R("c-dust-ftrans", (AC, '''    A_lambda = _att_curve_from_k_lambda(k_lambda, av)
    ftrans = 10 ** (-0.4 * A_lambda)

    ftrans = ftrans_floor + (1 - ftrans_floor) * ftrans

    return ftrans''', '''    raw = jnp.exp(-0.4 * jnp.log(10.0) * _att_curve_from_k_lambda(k_lambda, av))
    return raw + ftrans_floor * (1 - raw)'''))
R("c-dust-piecewise", (AC, '''    k_lambda = jnp.where(wave_micron > xc, k_lambda_c00, k_lambda_l02)
    return k_lambda''', '''    return jnp.select([wave_micron <= xc], [k_lambda_l02], default=k_lambda_c00)'''))
# ---- imf
R("c-imf-kw", (SM, '''    frac_returned = _returned_mass(lg_age_yr, a, b, lgk1, d, e, f, lgk2, h)
    return 1 - frac_returned''', '''    kw = dict(a=a, b=b, lgk1=lgk1, d=d, e=e, f=f, lgk2=lgk2, h=h)
    return 1 - _returned_mass(lg_age_yr, **kw)'''))
R("c-imf-dict", (SM, '''SALPETER_PARAMS = deepcopy(DEFAULT_PARAMS)
''', '''SALPETER_PARAMS = OrderedDict(DEFAULT_PARAMS)
'''), (SM, '''KROUPA_PARAMS = deepcopy(DEFAULT_PARAMS)
''', '''KROUPA_PARAMS = DEFAULT_PARAMS.copy()
'''))
R("c-imf-ordered-items", (SM, '''VAN_DOKKUM_PARAMS.update(a=0.238, d=0.156)''', '''for _key, _val in (("a", 0.238), ("d", 0.156)):
    VAN_DOKKUM_PARAMS[_key] = _val'''))
R("c-imf-merge", (SM, '''VAN_DOKKUM_PARAMS = deepcopy(DEFAULT_PARAMS)
''', '''VAN_DOKKUM_PARAMS = OrderedDict({**DEFAULT_PARAMS, "a": 0.238, "d": 0.156})
'''), (SM, '''VAN_DOKKUM_PARAMS.update(a=0.238, d=0.156)''', ''))
# ---- mzr
R("c-mzr-min", (MZ, '''    return jnp.where(logZ_reduction > 0, 0, logZ_reduction)''', '''    return jnp.minimum(logZ_reduction, 0.0)'''), (MZ, '''    t_lookback = MZR_EVOL_T0 - cosmic_time
    t_lookback = jnp.where(t_lookback < 0, 0, t_lookback)
''', '''    t_lookback = MZR_EVOL_T0 - jnp.minimum(cosmic_time, MZR_EVOL_T0)
'''))
R("c-mzr-star", (MZ, '''    logZ_reduction = mzr_evolution_model(
        logsm,
        t,
        c0_y_at_tlook_c,
        c1_y_at_tlook_c,
        tlook_c,
        c0_early_time_slope,
        c1_early_time_slope,
    )
    return lgmet_at_t0 + logZ_reduction''', '''    evol_params = (
        c0_y_at_tlook_c,
        c1_y_at_tlook_c,
        tlook_c,
        c0_early_time_slope,
        c1_early_time_slope,
    )
    return lgmet_at_t0 + mzr_evolution_model(logsm, t, *evol_params)'''))
R("c-mzr-maiolino", (MZ, '''    x = logsm - logm0
    xsq = x * x
    return -12.0 - 0.0864 * xsq + k0''', '''    return (k0 - 12.0) - 0.0864 * (logsm - logm0) ** 2'''))
R("c-mzr-pdict-loop", (MZ, '''DEFAULT_MET_PDICT = OrderedDict()
DEFAULT_MET_PDICT.update(MZR_T0_PDICT)
DEFAULT_MET_PDICT.update(MZR_VS_T_PDICT)
DEFAULT_MET_PDICT.update(MZR_SCATTER_PDICT)
''', '''DEFAULT_MET_PDICT = OrderedDict()
for _pdict in (MZR_T0_PDICT, MZR_VS_T_PDICT, MZR_SCATTER_PDICT):
    for _key in _pdict:
        DEFAULT_MET_PDICT[_key] = _pdict[_key]
'''))
R("c-umzr-comp", (UM, '''    u_parr = jnp.array([getattr(u_params, u_pname) for u_pname in _MZR_UPNAMES])

    # First ignore the non-square bounds
    params = MZRParams(
        *_get_params_kern(u_parr, jnp.array((list(MZR_PBDICT.values()))))
    )
''', '''    params = MZRParams(
        *[
            _get_square_bounded_param(getattr(u_params, "u_" + name), MZR_PBDICT[name])
            for name in _MZR_PNAMES
        ]
    )
'''))
R("c-umzr-hi-first", (UM, '''    parr = jnp.array([getattr(params, pname) for pname in _MZR_PNAMES])

    # First ignore the non-square bounds
    u_params = MZRUParams(
        *_get_u_params_kern(parr, jnp.array(list(MZR_PBDICT.values())))
    )

    # Now compute the correct bounded value of u_mzr_t0_slope_hi
    u_mzr_t0_slope_hi = _get_u_mzr_t0_slope_hi_from_bounded(
        params.mzr_t0_slope_lo, params.mzr_t0_slope_hi
    )

    # Overwrite u_mzr_t0_slope_hi with the correct value
    u_params = u_params._replace(u_mzr_t0_slope_hi=u_mzr_t0_slope_hi)

    return u_params''', '''    out = {}
    for pname, bound in MZR_PBDICT.items():
        val = getattr(params, pname)
        if pname == "mzr_t0_slope_hi":
            out["u_" + pname] = _get_u_mzr_t0_slope_hi_from_bounded(
                params.mzr_t0_slope_lo, val
            )
        else:
            out["u_" + pname] = _get_square_unbounded_param(val, bound)
    return MZRUParams(**out)'''))
R("c-umzr-ran-split", (UM, '''    nparams = len(bounds_pdict)
    bounds = list(bounds_pdict.values())
    params = []
    for ip in range(nparams):
        ran_key, p_key = jran.split(ran_key, 2)
        u = jran.uniform(p_key, minval=bounds[ip][0], maxval=bounds[ip][1], shape=())
        params.append(u)
    return params''', '''    params = []
    for bounds in bounds_pdict.values():
        ran_key, p_key = jran.split(ran_key)
        lo, hi = bounds
        params.append(lo + (hi - lo) * jran.uniform(p_key, shape=()))
    return params'''))
R("c-umzr-names", (UM, '''_MZR_UPNAMES = ["u_" + key for key in _MZR_PNAMES]
''', '''_MZR_UPNAMES = [f"u_{key}" for key in DEFAULT_MZR_PDICT]
'''))
