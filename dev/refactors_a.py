"""behaviour-preserving edits, batch A (numerical kernels)"""
U = "dsps/utils.py"
SA = "dsps/sed/stellar_age_weights.py"
MW = "dsps/sed/metallicity_weights.py"
SW = "dsps/sed/ssp_weights.py"
SS = "dsps/sed/stellar_sed.py"
PK = "dsps/photometry/photometry_kernels.py"
PP = "dsps/photometry/photpop.py"
PU = "dsps/photometry/utils.py"
FW = "dsps/cosmology/flat_wcdm.py"
DB = "dsps/sfh/diffburst.py"
AC = "dsps/dust/att_curves.py"
BB = "dsps/dust/blackbody.py"
DU = "dsps/dust/utils.py"
EW = "dsps/em_lines/equivalent_width.py"
RM = "dsps/imf/remnant_mass.py"
SM = "dsps/imf/surviving_mstar.py"
MZ = "dsps/metallicity/mzr.py"
UM = "dsps/metallicity/umzr.py"
REFS = []


def R(id, *edits, **kw):
    REFS.append(dict(id=id, edits=[tuple(e) for e in edits], **kw))


# ---- utils
R("u-dt-concat", (U, """    tmids = 0.5 * (t[:-1] + t[1:])
    dt = jnp.zeros_like(t, dtype=tmids.dtype)
    dtmids = jnp.diff(tmids)

    dt = dt.at[1:-1].set(dtmids)

    t_lo = t[0] - (t[1] - t[0]) / 2
    t_hi = t[-1] + dtmids[-1] / 2

    dt = dt.at[0].set(tmids[0] - t_lo)
    dt = dt.at[-1].set(t_hi - tmids[-1])
    return dt
""", """    tmids = 0.5 * (t[:-1] + t[1:])
    dtmids = jnp.diff(tmids)
    t_lo = t[0] - (t[1] - t[0]) / 2
    t_hi = t[-1] + dtmids[-1] / 2
    edges = jnp.concatenate((jnp.array([t_lo]), tmids, jnp.array([t_hi])))
    return jnp.diff(edges)
"""))
R("u-dt-helper", (U, """@jjit
def _jax_get_dt_array(t):
    tmids = 0.5 * (t[:-1] + t[1:])
""", """def _midpoints(t):
    return 0.5 * (t[:-1] + t[1:])


@jjit
def _jax_get_dt_array(t):
    tmids = _midpoints(t)
"""))
R("u-dt-hstack", (U, """    dt = jnp.zeros_like(t, dtype=tmids.dtype)
    dtmids = jnp.diff(tmids)

    dt = dt.at[1:-1].set(dtmids)

    t_lo = t[0] - (t[1] - t[0]) / 2
    t_hi = t[-1] + dtmids[-1] / 2

    dt = dt.at[0].set(tmids[0] - t_lo)
    dt = dt.at[-1].set(t_hi - tmids[-1])
    return dt
""", """    dtmids = tmids[1:] - tmids[:-1]
    t_lo = t[0] - (t[1] - t[0]) / 2
    t_hi = t[-1] + dtmids[-1] / 2
    return jnp.hstack([tmids[0] - t_lo, dtmids, t_hi - tmids[-1]])
"""))
R("u-binedges-concat", (U, """    bin_edges = jnp.zeros(dbins.size + 1)
    bin_edges = bin_edges.at[:-1].set(bin_mids - dbins / 2)

    bin_edges = bin_edges.at[0].set(lowest_bin_edge)
    bin_edges = bin_edges.at[-1].set(highest_bin_edge)

    return bin_edges
""", """    inner_edges = bin_mids[1:] - dbins[1:] / 2
    lo = jnp.atleast_1d(lowest_bin_edge)
    hi = jnp.atleast_1d(highest_bin_edge)
    return jnp.concatenate([lo, inner_edges, hi])
"""))
R("u-cumtrapz-cumsum", (U, """    res_init = xarr[0], yarr[0], 0.0
    scan_data = xarr, yarr
    cumtrapz = scan(_cumtrapz_scan_func, res_init, scan_data)[1]
    return cumtrapz
""", """    dx = jnp.diff(xarr)
    areas = 0.5 * dx * (yarr[:-1] + yarr[1:])
    return jnp.concatenate((jnp.zeros(1), jnp.cumsum(areas)))
"""))
R("u-cumtrapz-scan-inline", (U, """    res_init = xarr[0], yarr[0], 0.0
    scan_data = xarr, yarr
    cumtrapz = scan(_cumtrapz_scan_func, res_init, scan_data)[1]
    return cumtrapz
""", """    def body(carry, el):
        x_prev, y_prev, total = carry
        x, y = el
        total = total + 0.5 * (x - x_prev) * (y + y_prev)
        return (x, y, total), total

    _, result = lax.scan(body, (xarr[0], yarr[0], 0.0), (xarr, yarr))
    return result
"""))
R("u-cumtrapz-scan-pairs", (U, """    res_init = xarr[0], yarr[0], 0.0
    scan_data = xarr, yarr
    cumtrapz = scan(_cumtrapz_scan_func, res_init, scan_data)[1]
    return cumtrapz
""", """    areas = (xarr[1:] - xarr[:-1]) * (yarr[1:] + yarr[:-1]) / 2.0

    def step(acc, area):
        acc = acc + area
        return acc, acc

    _, cumulative = scan(step, 0.0, areas)
    return jnp.append(jnp.zeros(1), cumulative)
"""))
R("u-mstar-concat", (U, """    n_t = t_table.size

    padded_t_table = jnp.zeros(n_t + 1)
    padded_t_table = padded_t_table.at[0].set(T_BIRTH_MIN)
    padded_t_table = padded_t_table.at[1:].set(t_table)

    padded_sfh_table = jnp.zeros(n_t + 1)
    padded_sfh_table = padded_sfh_table.at[0].set(SFR_MIN)
    padded_sfh_table = padded_sfh_table.at[1:].set(sfh_table)

    mstar_formed = cumtrapz(padded_t_table, padded_sfh_table)[1:] * YEAR_PER_GYR
""", """    padded_t_table = jnp.concatenate((jnp.array([T_BIRTH_MIN]), t_table))
    padded_sfh_table = jnp.concatenate((jnp.array([SFR_MIN]), sfh_table))
    mstar_formed = YEAR_PER_GYR * cumtrapz(padded_t_table, padded_sfh_table)[1:]
"""))
R("u-mstar-helper", (U, """    n_t = t_table.size

    padded_t_table = jnp.zeros(n_t + 1)
    padded_t_table = padded_t_table.at[0].set(T_BIRTH_MIN)
    padded_t_table = padded_t_table.at[1:].set(t_table)

    padded_sfh_table = jnp.zeros(n_t + 1)
    padded_sfh_table = padded_sfh_table.at[0].set(SFR_MIN)
    padded_sfh_table = padded_sfh_table.at[1:].set(sfh_table)
""", """    padded_t_table = _prepend(t_table, T_BIRTH_MIN)
    padded_sfh_table = _prepend(sfh_table, SFR_MIN)
"""), (U, None, '''

def _prepend(arr, first):
    """Return a copy of arr with first inserted at the beginning"""
    return jnp.zeros(arr.size + 1).at[0].set(first).at[1:].set(arr)
'''))
R("u-mstar-pad", (U, """    padded_t_table = jnp.zeros(n_t + 1)
    padded_t_table = padded_t_table.at[0].set(T_BIRTH_MIN)
    padded_t_table = padded_t_table.at[1:].set(t_table)
""", """    padded_t_table = jnp.pad(t_table, (1, 0), constant_values=T_BIRTH_MIN)
"""), (U, """    padded_sfh_table = jnp.zeros(n_t + 1)
    padded_sfh_table = padded_sfh_table.at[0].set(SFR_MIN)
    padded_sfh_table = padded_sfh_table.at[1:].set(sfh_table)
""", """    padded_sfh_table = jnp.full(n_t + 1, SFR_MIN).at[1:].set(sfh_table)
"""))
R("u-mstar-insert", (U, """    padded_t_table = jnp.zeros(n_t + 1)
    padded_t_table = padded_t_table.at[0].set(T_BIRTH_MIN)
    padded_t_table = padded_t_table.at[1:].set(t_table)
""", """    padded_t_table = jnp.insert(t_table, 0, T_BIRTH_MIN)
"""))
R("u-trapz-sum", (U, "    return jnp.trapezoid(yarr, xarr)\n", "    dx = xarr[1:] - xarr[:-1]\n    return jnp.sum(0.5 * dx * (yarr[1:] + yarr[:-1]))\n"))
R("u-trapz-dot", (U, "    return jnp.trapezoid(yarr, xarr)\n", "    mid_heights = 0.5 * (yarr[1:] + yarr[:-1])\n    return jnp.dot(mid_heights, jnp.diff(xarr))\n"))
R("u-twcuml-select", (U, """    val = jnp.where(z < -3, 0, val)
    val = jnp.where(z > 3, 1, val)
    return val


@jjit
def _tw_sigmoid""", """    return jnp.where(z > 3, 1, jnp.where(z < -3, 0, val))


@jjit
def _tw_sigmoid"""))
R("u-twcuml-clip", (U, """    val = -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 1 / 2
    val = jnp.where(z < -3, 0, val)
    val = jnp.where(z > 3, 1, val)
    return val
""", """    z = jnp.clip(z, -3.0, 3.0)
    return -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 1 / 2
"""))
R("u-twcuml-horner", (U, "    val = -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 1 / 2\n",
  "    z2 = z * z\n    val = 0.5 + z * (35 / 96 + z2 * (-35 / 864 + z2 * (7 / 2592 - z2 * 5 / 69984)))\n"))
R("u-twgauss-abs", (U, "    msk = (z < -3) | (z > 3)\n    return jnp.where(msk, 0, val)\n", "    return jnp.where(jnp.abs(z) > 3, 0, val)\n"))
R("u-twgauss-logical", (U, "    msk = (z < -3) | (z > 3)\n    return jnp.where(msk, 0, val)\n", "    inside = jnp.logical_and(z >= -3, z <= 3)\n    return jnp.where(inside, val, 0.0)\n"))
R("u-hist-broadcast", (U, "    return _triweighted_histogram_vmap(x, sig, xbins[:-1], xbins[1:])\n",
  "    lo, hi = xbins[:-1], xbins[1:]\n    return _triweighted_histogram_vmap(x, sig, lo, hi)\n"))
R("u-hist-diff", (U, "    return _triweighted_histogram_vmap(x, sig, xbins[:-1], xbins[1:])\n",
  "    cdf = vmap(_tw_cuml_kern, in_axes=(None, 0, None))(x, xbins, sig)\n    return cdf[:-1] - cdf[1:]\n"))
R("u-fill-select", (U, """    lores = jnp.zeros(bin_edges.size - 1)
    hires = jnp.zeros(bin_edges.size - 1)

    lores = lores.at[0].set(1.0)
    hires = hires.at[-1].set(1.0)

    weights = jnp.where(zmsk & lomsk, lores, weights)
    weights = jnp.where(zmsk & himsk, hires, weights)
    return weights
""", """    n_bins = bin_edges.size - 1
    lores = jnp.zeros(n_bins).at[0].set(1.0)
    hires = jnp.zeros(n_bins).at[n_bins - 1].set(1.0)
    conds = [zmsk & himsk, zmsk & lomsk]
    return jnp.select(conds, [hires, lores], default=weights)
"""))
R("u-fill-any", (U, "    zmsk = jnp.all(weights == 0, axis=0)\n", "    zmsk = jnp.logical_not(jnp.any(weights != 0, axis=0))\n"))
R("u-fill-eye", (U, """    lores = jnp.zeros(bin_edges.size - 1)
    hires = jnp.zeros(bin_edges.size - 1)

    lores = lores.at[0].set(1.0)
    hires = hires.at[-1].set(1.0)
""", """    ix = jnp.arange(bin_edges.size - 1)
    lores = jnp.where(ix == 0, 1.0, 0.0)
    hires = jnp.where(ix == bin_edges.size - 2, 1.0, 0.0)
"""))
R("u-sigmoid-formula", (U, "    return ylo + height_diff * nn.sigmoid(k * (x - x0))\n", "    return ylo + height_diff / (1.0 + jnp.exp(-k * (x - x0)))\n"))
R("u-sigmoid-expit", (U, "    return ylo + height_diff * nn.sigmoid(k * (x - x0))\n", "    arg = k * (x - x0)\n    return ylo + height_diff * lax.logistic(arg)\n"))
R("u-invsig-log", (U, """    lnarg = (yhi - ylo) / (y - ylo) - 1
    return x0 - lax.log(lnarg) / k
""", """    frac = (y - ylo) / (yhi - y)
    return x0 + jnp.log(frac) / k
"""))
R("u-sigslope-inline", (U, """    slope = _sigmoid(x, x0, slope_k, lo, hi)
    return ytp + slope * (x - xtp)
""", """    weight = nn.sigmoid(slope_k * (x - x0))
    slope = lo * (1 - weight) + hi * weight
    dx = x - xtp
    return ytp + slope * dx
"""))
R("u-mult2d", (U, "_mult_2d_vmap = jjit(vmap(vmap(_mult_2d, in_axes=[None, 0]), in_axes=[0, None]))\n", """_mult_2d_inner = vmap(_mult_2d, in_axes=(None, 0))
_mult_2d_vmap = jjit(vmap(_mult_2d_inner, in_axes=(0, None)))
"""))
R("u-mult2d-outer", (U, "_mult_2d_vmap = jjit(vmap(vmap(_mult_2d, in_axes=[None, 0]), in_axes=[0, None]))\n", """

@jjit
def _mult_2d_vmap(w1, w2):
    return w1[:, None] * w2[None, :]


"""))
R("u-plaw-rvs", (U, """    npts = a.shape[0]
    r = jran.uniform(ran_key, (npts,))
    ag, bg = a**g, b**g
    return (ag + (bg - ag) * r) ** (1.0 / g)
""", """    uran = jran.uniform(ran_key, shape=(a.size,))
    ag = a**g
    bg = b**g
    cdf_inv = ag * (1.0 - uran) + bg * uran
    return cdf_inv ** (1.0 / g)
"""))
R("u-plaw-pdf", (U, """    ag, bg = a**g, b**g
    return g * x ** (g - 1) / (bg - ag)
""", """    norm = g / (jnp.power(b, g) - jnp.power(a, g))
    return norm * jnp.power(x, g - 1)
"""))
# ---- stellar ages
R("sa-birth-max", (SA, "    t_birth = jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN, t_birth)\n", "    t_birth = jnp.maximum(t_birth, T_BIRTH_MIN)\n"))
R("sa-birth-clip", (SA, "    t_birth = jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN, t_birth)\n    lgt_birth = jnp.log10(t_birth)\n    return lgt_birth\n", "    return jnp.log10(jnp.clip(t_birth, T_BIRTH_MIN))\n"))
R("sa-birth-clipmin", (SA, "    t_birth = jnp.where(t_birth < T_BIRTH_MIN, T_BIRTH_MIN, t_birth)\n", "    t_birth = jnp.clip(t_birth, min=T_BIRTH_MIN)\n"))
R("sa-edges-concat", (SA, """    lg_age_bin_edges = jnp.zeros(dlgtau.size + 1)
    lg_age_bin_edges = lg_age_bin_edges.at[:-1].set(lg_ages - dlgtau / 2)

    dlowest = (lg_ages[1] - lg_ages[0]) / 2
    lowest = lg_ages[0] - dlowest
    highest = lg_ages[-1] + dlgtau[-1] / 2
    lg_age_bin_edges = lg_age_bin_edges.at[0].set(lowest)
    lg_age_bin_edges = lg_age_bin_edges.at[-1].set(highest)

    return lg_age_bin_edges
""", """    lowest = lg_ages[0] - (lg_ages[1] - lg_ages[0]) / 2
    highest = lg_ages[-1] + dlgtau[-1] / 2
    interior = (lg_ages - dlgtau / 2)[1:]
    return jnp.concatenate([lowest[None], interior, highest[None]])
"""))
R("sa-edges-reuse", (SA, """    lg_age_bin_edges = jnp.zeros(dlgtau.size + 1)
    lg_age_bin_edges = lg_age_bin_edges.at[:-1].set(lg_ages - dlgtau / 2)

    dlowest = (lg_ages[1] - lg_ages[0]) / 2
    lowest = lg_ages[0] - dlowest
    highest = lg_ages[-1] + dlgtau[-1] / 2
    lg_age_bin_edges = lg_age_bin_edges.at[0].set(lowest)
    lg_age_bin_edges = lg_age_bin_edges.at[-1].set(highest)

    return lg_age_bin_edges
""", """    lowest = lg_ages[0] - 0.5 * (lg_ages[1] - lg_ages[0])
    highest = lg_ages[-1] + 0.5 * dlgtau[-1]
    return _get_bin_edges(lg_ages, lowest, highest)
"""), (SA, "from ..utils import _jax_get_dt_array, cumulative_mstar_formed", "from ..utils import _get_bin_edges, _jax_get_dt_array, cumulative_mstar_formed"))
R("sa-weights-slices", (SA, """    delta_mstar_at_t_birth = -jnp.diff(10**logsm_at_t_birth_bin_edges)
    age_weights = delta_mstar_at_t_birth / delta_mstar_at_t_birth.sum()
""", """    mstar_at_edges = 10**logsm_at_t_birth_bin_edges
    delta_mstar = mstar_at_edges[:-1] - mstar_at_edges[1:]
    age_weights = delta_mstar / jnp.sum(delta_mstar)
"""))
R("sa-weights-helper", (SA, """    delta_mstar_at_t_birth = -jnp.diff(10**logsm_at_t_birth_bin_edges)
    age_weights = delta_mstar_at_t_birth / delta_mstar_at_t_birth.sum()
""", """    age_weights = _normalized_mass_differences(logsm_at_t_birth_bin_edges)
"""), (SA, None, '''

@jjit
def _normalized_mass_differences(logsm_edges):
    mstar_edges = jnp.power(10.0, logsm_edges)
    delta_mstar = -jnp.diff(mstar_edges)
    total = jnp.sum(delta_mstar)
    return delta_mstar / total
'''))
R("sa-weights-telescope", (SA, """    age_weights = delta_mstar_at_t_birth / delta_mstar_at_t_birth.sum()
""", """    norm = 10 ** logsm_at_t_birth_bin_edges[0] - 10 ** logsm_at_t_birth_bin_edges[-1]
    age_weights = delta_mstar_at_t_birth / norm
"""))
R("sa-inline-public", (SA, """    logsm_table = _calc_logsm_table_from_sfh_table(gal_t_table, gal_sfr_table, sfr_min)
    gal_lgt_table = jnp.log10(gal_t_table)
    age_weights = _calc_age_weights_from_logsm_table(
        gal_lgt_table, logsm_table, ssp_lg_age_gyr, t_obs
    )[1]
    return age_weights
""", """    gal_lgt_table = jnp.log10(gal_t_table)
    logsm_table = _calc_logsm_table_from_sfh_table(gal_t_table, gal_sfr_table, sfr_min)
    _, age_weights = _calc_age_weights_from_logsm_table(
        gal_lgt_table, logsm_table, ssp_lg_age_gyr, t_obs
    )
    return age_weights
"""))
R("sa-logsm-max", (SA, """    gal_sfr_table = jnp.where(gal_sfr_table < sfr_min, sfr_min, gal_sfr_table)
    gal_smh_table = cumulative_mstar_formed(gal_t_table, gal_sfr_table)
    logsm_table = jnp.log10(gal_smh_table)
    return logsm_table
""", """    floored_sfr = jnp.maximum(sfr_min, gal_sfr_table)
    return jnp.log10(cumulative_mstar_formed(gal_t_table, floored_sfr))
"""))
R("sa-no-jit", (SA, "@jjit\ndef _get_lgt_birth", "def _get_lgt_birth"), (SA, "@jjit\ndef _get_lg_age_bin_edges", "def _get_lg_age_bin_edges"))
# ---- metallicity weights
R("mw-normhelper", (MW, """    tw_hist_results_sum = jnp.sum(tw_hist_results, axis=0)

    zmsk = tw_hist_results_sum == 0
    tw_hist_results_sum = jnp.where(zmsk, 1.0, tw_hist_results_sum)
    weights = tw_hist_results / tw_hist_results_sum

    return _fill""", """    weights = _safe_normalize(tw_hist_results)
    return _fill"""), (MW, None, '''

def _safe_normalize(w):
    total = w.sum(axis=0)
    return w / jnp.where(total == 0, 1.0, total)
'''))
R("mw-use-util", (MW, """    tw_hist_results = triweighted_histogram(
        gal_lgmet, gal_lgmet_scatter, lgmetbin_edges
    )

    tw_hist_results_sum = jnp.sum(tw_hist_results, axis=0)

    zmsk = tw_hist_results_sum == 0
    tw_hist_results_sum = jnp.where(zmsk, 1.0, tw_hist_results_sum)
    weights = tw_hist_results / tw_hist_results_sum

    return _fill_empty_weights_singlepoint(gal_lgmet, lgmetbin_edges, weights)
""", """    return _get_triweights_singlepoint(gal_lgmet, gal_lgmet_scatter, lgmetbin_edges)
"""), (MW, "    _get_bin_edges,\n    triweighted", "    _get_bin_edges,\n    _get_triweights_singlepoint,\n    triweighted"))
R("mw-transpose", (MW, """    lgmet_weight_matrix = lgmet_weight_matrix / ssp_lg_age_gyr.size

    lgmet_weight_matrix = jnp.swapaxes(lgmet_weight_matrix, 1, 0)

    return lgmet_weight_matrix
""", """    n_ages = ssp_lg_age_gyr.shape[0]
    return lgmet_weight_matrix.T / n_ages
"""))
R("mw-outaxes", (MW, """_get_lgmet_weights_singlegal_zh = jjit(vmap(_get_lgmet_weights_singlegal, in_axes=_A))
""", """_get_lgmet_weights_singlegal_zh = jjit(
    vmap(_get_lgmet_weights_singlegal, in_axes=_A, out_axes=1)
)
"""), (MW, """    lgmet_weight_matrix = jnp.swapaxes(lgmet_weight_matrix, 1, 0)

""", ""))
R("mw-lambda-vmap", (MW, """    lgmet_weight_matrix = _get_lgmet_weights_singlegal_zh(
        lgmet_at_ssp_lgages, gal_lgmet_scatter, lgmetbin_edges
    )
""", """    lgmet_weight_matrix = vmap(
        lambda lgmet: _get_lgmet_weights_singlegal(
            lgmet, gal_lgmet_scatter, lgmetbin_edges
        )
    )(lgmet_at_ssp_lgages)
"""))
# ---- ssp weights
R("sw-newaxis", (SW, "    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))\n", "    weights = lgmet_weights[:, jnp.newaxis] * age_weights[jnp.newaxis, :]\n"))
R("sw-outer", (SW, "    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))\n", "    weights = jnp.outer(lgmet_weights, age_weights)\n"))
R("sw-einsum", (SW, "    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))\n", "    weights = jnp.einsum(\"m,a->ma\", lgmet_weights, age_weights)\n"))
R("sw-normhelper", (SW, """    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))
    weights = weights / weights.sum()

    return SSPWeights(weights, lgmet_weights, age_weights)
""", """    weights = lgmet_weights.reshape((-1, 1)) * age_weights.reshape((1, -1))
    return _pack(weights, lgmet_weights, age_weights)
"""), (SW, """    weights = lgmet_weights * age_weights.reshape((1, -1))
    weights = weights / weights.sum()

    return SSPWeights(weights, lgmet_weights, age_weights)
""", """    return _pack(lgmet_weights * age_weights[None, :], lgmet_weights, age_weights)


def _pack(weights, lgmet_weights, age_weights):
    weights = weights / jnp.sum(weights)
    return SSPWeights(
        weights=weights, lgmet_weights=lgmet_weights, age_weights=age_weights
    )
"""))
R("sw-reorder", (SW, """    age_weights = calc_age_weights_from_sfh_table(
        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs, sfr_min
    )
    lgmet_weights = calc_lgmet_weights_from_lognormal_mdf(
        gal_lgmet, gal_lgmet_scatter, ssp_lgmet
    )
""", """    lgmet_weights = calc_lgmet_weights_from_lognormal_mdf(
        gal_lgmet=gal_lgmet, gal_lgmet_scatter=gal_lgmet_scatter, ssp_lgmet=ssp_lgmet
    )
    age_weights = calc_age_weights_from_sfh_table(
        gal_t_table, gal_sfr_table, ssp_lg_age_gyr, t_obs, sfr_min=sfr_min
    )
"""))
# ---- SED
SEDSUM = """    n_met, n_ages = weights.shape
    sed_unit_mstar = jnp.sum(
        ssp_flux * weights.reshape((n_met, n_ages, 1)), axis=(0, 1)
    )
"""
R("ss-einsum", (SS, SEDSUM, "    sed_unit_mstar = jnp.einsum(\"ma,maw->w\", weights, ssp_flux)\n"), many=True)
R("ss-tensordot", (SS, SEDSUM, "    sed_unit_mstar = jnp.tensordot(weights, ssp_flux, axes=2)\n"), many=True)
R("ss-tensordot2", (SS, SEDSUM, "    sed_unit_mstar = jnp.tensordot(weights, ssp_flux, axes=([0, 1], [0, 1]))\n"), many=True)
R("ss-newaxis", (SS, SEDSUM, "    sed_unit_mstar = (weights[..., None] * ssp_flux).sum(axis=0).sum(axis=0)\n"), many=True)
R("ss-matmul", (SS, SEDSUM, "    n_wave = ssp_flux.shape[-1]\n    sed_unit_mstar = weights.ravel() @ ssp_flux.reshape((-1, n_wave))\n"), many=True)
MOBS = """    lgt_obs = jnp.log10(t_obs)
    lgt_table = jnp.log10(gal_t_table)
    logsm_table = _calc_logsm_table_from_sfh_table(gal_t_table, gal_sfr_table, sfr_min)
    logsm_obs = jnp.interp(lgt_obs, lgt_table, logsm_table)
    mstar_obs = 10**logsm_obs

    rest_sed = sed_unit_mstar * mstar_obs
"""
R("ss-mobs-helper", (SS, MOBS, """    mstar_obs = _mstar_at_t_obs(gal_t_table, gal_sfr_table, t_obs, sfr_min)
    rest_sed = mstar_obs * sed_unit_mstar
"""), (SS, "@jjit\ndef calc_rest_sed_sfh_table_lognormal_mdf(", """@jjit
def _mstar_at_t_obs(gal_t_table, gal_sfr_table, t_obs, sfr_min):
    logsm_table = _calc_logsm_table_from_sfh_table(gal_t_table, gal_sfr_table, sfr_min)
    logsm_obs = jnp.interp(jnp.log10(t_obs), jnp.log10(gal_t_table), logsm_table)
    return 10**logsm_obs


@jjit
def calc_rest_sed_sfh_table_lognormal_mdf("""), many=True)
R("ss-mobs-pow", (SS, "    mstar_obs = 10**logsm_obs\n\n    rest_sed = sed_unit_mstar * mstar_obs\n", "    rest_sed = sed_unit_mstar * jnp.power(10.0, logsm_obs)\n"), many=True)
R("ss-attr", (SS, "    weights, lgmet_weights, age_weights = calc_ssp_weights_sfh_table_met_table(\n", "    ssp_weights = calc_ssp_weights_sfh_table_met_table(\n"),
  (SS, """        gal_lgmet_table,
        gal_lgmet_scatter,
        ssp_lgmet,
        ssp_lg_age_gyr,
        t_obs,
        sfr_min,
    )
    n_met, n_ages = weights.shape
""", """        gal_lgmet_table,
        gal_lgmet_scatter,
        ssp_lgmet,
        ssp_lg_age_gyr,
        t_obs,
        sfr_min,
    )
    weights = ssp_weights.weights
    lgmet_weights = ssp_weights.lgmet_weights
    age_weights = ssp_weights.age_weights
    n_met, n_ages = weights.shape
"""))
# ---- photometry
R("pk-normhelper", (PK, """    flux_source = _obs_flux_ssp(
        wave_spec_rest, lum_spec, wave_filter, trans_filter, redshift
    )
    flux_ab0 = _flux_ab0_at_10pc(wave_filter, trans_filter)
    mag_no_dimming = -2.5 * jnp.log10(flux_source / flux_ab0)
    dimming = _cosmological_dimming(redshift, Om0, w0, wa, h)
    obs_mag = mag_no_dimming + dimming
    return obs_mag
""", """    dimming = _cosmological_dimming(redshift, Om0, w0, wa, h)
    mag_no_dimming = _calc_obs_mag_no_dimming(
        wave_spec_rest, lum_spec, wave_filter, trans_filter, redshift
    )
    return mag_no_dimming + dimming
"""))
R("pk-logdiff", (PK, "    mag_no_dimming = -2.5 * jnp.log10(flux_source / flux_ab0)\n", "    mag_no_dimming = 2.5 * (jnp.log10(flux_ab0) - jnp.log10(flux_source))\n"))
R("pk-ab0-const", (PK, """    integrand = trans_filter * AB0 / wave_filter
    lum_ab0_filter = trapz(wave_filter, integrand)
    return lum_ab0_filter
""", """    integrand = trans_filter / wave_filter
    return AB0 * trapz(wave_filter, integrand)
"""))
R("pk-restwave", (PK, """    lum_zshift_phot = jnp.interp(
        wave_filter, wave_spec_rest * (1 + z), lum_spec, left=0, right=0
    )
""", """    zp1 = 1.0 + z
    lum_zshift_phot = jnp.interp(
        wave_filter / zp1, wave_spec_rest, lum_spec, left=0.0, right=0.0
    )
"""))
R("pk-share", (PK, """    lum_phot = jnp.interp(wave_filter, wave_spec_rest, lum_spec, left=0, right=0)
    integrand = trans_filter * lum_phot / wave_filter
    lum_filter = trapz(wave_filter, integrand)
    return lum_filter
""", """    return _obs_flux_ssp(wave_spec_rest, lum_spec, wave_filter, trans_filter, 0.0)
"""))
R("pk-dimming-log", (PK, """    dmod = distance_modulus_to_z(z, Om0, w0, wa, h)
    return dmod - 2.5 * jnp.log10(1 + z)
""", """    zp1 = 1.0 + z
    dmod = distance_modulus_to_z(z, Om0=Om0, w0=w0, wa=wa, h=h)
    k_term = 2.5 * jnp.log10(zp1)
    return dmod - k_term
"""))
R("pp-lambda", (PP, """    ssp_restmag_table = _calc_rest_mag_vmap_f_ssp(
        ssp_wave, ssp_fluxes, filter_waves, filter_trans
    )
    return ssp_restmag_table
""", """    def _mags_one_sed(sed):
        return _calc_rest_mag_vmap_f(ssp_wave, sed, filter_waves, filter_trans)

    return vmap(vmap(_mags_one_sed))(ssp_fluxes)
"""))
R("pp-tuple-axes", (PP, "_z = [*[None] * 4, 0, *[None] * 4]\n_f = [None, None, 0, 0, None, *[None] * 4]\n_ssp = [None, 0, *[None] * 7]\n",
  "_z = (None, None, None, None, 0, None, None, None, None)\n_f = (None, None, 0, 0) + (None,) * 5\n_ssp = (None, 0) + (None,) * 7\n"))
R("pu-simplify", (PU, """    wave0 = wave_filters[0]
    wave_min, wave_max = wave0.min(), wave0.max()

    if n is None:
        n = np.min([x.size for x in wave_filters])

    for wave, trans in zip(wave_filters, trans_filters):
        wave_min = min(wave_min, wave.min())
        wave_max = max(wave_max, wave.max())

    wave_collector = []
    trans_collector = []
    for wave, trans in zip(wave_filters, trans_filters):
        wave_min, wave_max = wave.min(), wave.max()
        new_wave = np.linspace(wave_min, wave_max, n)
        new_trans = np.interp(new_wave, wave, trans)
        wave_collector.append(new_wave)
        trans_collector.append(new_trans)
    return np.array(wave_collector), np.array(trans_collector)
""", """    if n is None:
        n = min(len(wave) for wave in wave_filters)

    new_waves = [np.linspace(w.min(), w.max(), n) for w in wave_filters]
    new_trans = [
        np.interp(xq, w, t) for xq, w, t in zip(new_waves, wave_filters, trans_filters)
    ]
    return np.stack(new_waves), np.stack(new_trans)
"""))
R("pu-prealloc", (PU, """    wave_collector = []
    trans_collector = []
    for wave, trans in zip(wave_filters, trans_filters):
        wave_min, wave_max = wave.min(), wave.max()
        new_wave = np.linspace(wave_min, wave_max, n)
        new_trans = np.interp(new_wave, wave, trans)
        wave_collector.append(new_wave)
        trans_collector.append(new_trans)
    return np.array(wave_collector), np.array(trans_collector)
""", """    n_filters = len(wave_filters)
    wave_out = np.zeros((n_filters, n))
    trans_out = np.zeros((n_filters, n))
    for i in range(n_filters):
        wave, trans = wave_filters[i], trans_filters[i]
        wave_out[i] = np.linspace(wave.min(), wave.max(), n)
        trans_out[i, :] = np.interp(wave_out[i], wave, trans)
    return wave_out, trans_out
"""))
# ---- cosmology
R("fw-lookback-int", (FW, """    z_table = jnp.linspace(0, redshift, 512)
    integrand = 1 / _Ez(z_table, Om0, w0, wa) / (1 + z_table)
""", """    z_table = jnp.linspace(0, redshift, 512)
    integrand = _integrand_oneOverEz1pz(z_table, Om0, w0, wa)
"""))
R("fw-timehelper", (FW, """    z_table = jnp.linspace(0, redshift, 512)
    integrand = 1 / _Ez(z_table, Om0, w0, wa) / (1 + z_table)
    res = trapz(z_table, integrand)
    th = _hubble_time(0.0, Om0, w0, wa, h)
    return th * res
""", """    z_table = jnp.linspace(0, redshift, 512)
    return _time_integral(z_table, Om0, w0, wa, h)
"""), (FW, """    z_table = jnp.logspace(0, 3, 512) - 1.0
    integrand = 1 / _Ez(z_table, Om0, w0, wa) / (1 + z_table)
    res = trapz(z_table, integrand)
    th = _hubble_time(0.0, Om0, w0, wa, h)
    return th * res
""", """    z_table = 10 ** jnp.linspace(0, 3, 512) - 1.0
    return _time_integral(z_table, Om0, w0, wa, h)


@jjit
def _time_integral(z_table, Om0, w0, wa, h):
    integrand = 1.0 / (_Ez(z_table, Om0, w0, wa) * (1.0 + z_table))
    hubble_time0 = _hubble_time(0.0, Om0, w0, wa, h)
    return hubble_time0 * trapz(z_table, integrand)
"""))
R("fw-de-exp", (FW, """    a = 1.0 / (1.0 + z)
    de_z = a ** (-3.0 * (1.0 + w0 + wa)) * lax.exp(-3.0 * wa * (1.0 - a))
    return de_z
""", """    zp1 = 1.0 + z
    return zp1 ** (3.0 * (1.0 + w0 + wa)) * jnp.exp(-3.0 * wa * z / zp1)
"""))
R("fw-rho", (FW, """    rho_crit0 = RHO_CRIT0_KPC3_UNITY_H * h * h
    rho_crit = rho_crit0 * _Ez(redshift, Om0, w0, wa) ** 2
    return rho_crit
""", """    Ez = _Ez(redshift, Om0, w0, wa)
    return RHO_CRIT0_KPC3_UNITY_H * h**2 * Ez * Ez
"""))
R("fw-age-sum", (FW, """    t0 = age_at_z0(Om0, w0, wa, h)
    tlook = lookback_to_z(redshift, Om0, w0, wa, h)
    return t0 - tlook
""", """    params = (Om0, w0, wa, h)
    return age_at_z0(*params) - lookback_to_z(redshift, *params)
"""))
R("fw-age-lambda", (FW, "    return _age_at_z_vmap(jnp.atleast_1d(redshift), Om0, w0, wa, h)\n", "    zarr = jnp.atleast_1d(redshift)\n    t0 = age_at_z0(Om0, w0, wa, h)\n    return t0 - lookback_time(zarr, Om0, w0, wa, h)\n"))
R("fw-dvir-horner", (FW, "    Delta = 18 * jnp.pi**2 + 82.0 * x - 39.0 * x**2\n    return Delta\n", "    return 18.0 * jnp.pi**2 + x * (82.0 - 39.0 * x)\n"))
R("fw-tcross", (FW, "    t_cross = 2**1.5 * _hubble_time(redshift, Om0, w0, wa, h) * delta**-0.5\n", "    t_cross = 2 * jnp.sqrt(2.0 / delta) * _hubble_time(redshift, Om0, w0, wa, h)\n"))
R("fw-vol", (FW, """    da = angular_diameter_distance_to_z(redshift, Om0, w0, wa, h)
    zp1 = 1.0 + redshift
    ez = _Ez(redshift, Om0, w0, wa)
    diff_vol_com = dh * ((zp1 * da) ** 2.0) / ez
""", """    dc = comoving_distance_to_z(redshift, Om0, w0, wa, h)
    ez = _Ez(redshift, Om0, w0, wa)
    diff_vol_com = dh * dc**2 / ez
"""))
R("fw-partial", (FW, "comoving_distance = jjit(vmap(comoving_distance_to_z, in_axes=_CD))\n", """

@jjit
def comoving_distance(redshift, Om0, w0, wa, h):
    return vmap(lambda z: comoving_distance_to_z(z, Om0, w0, wa, h))(redshift)


"""))
R("fw-vmap-helper", (FW, """_A = (0, *[None] * 4)
distance_modulus = jjit(vmap(distance_modulus_to_z, in_axes=_A))
luminosity_distance = jjit(vmap(luminosity_distance_to_z, in_axes=_A))
angular_diameter_distance = jjit(vmap(angular_diameter_distance_to_z, in_axes=_A))
lookback_time = jjit(vmap(lookback_to_z, in_axes=_A))
_Om = jjit(vmap(_Om_at_z, in_axes=_A[:-1]))
""", """

def _vectorize_in_z(func, n_params=4):
    return jjit(vmap(func, in_axes=(0,) + (None,) * n_params))


distance_modulus = _vectorize_in_z(distance_modulus_to_z)
luminosity_distance = _vectorize_in_z(luminosity_distance_to_z)
angular_diameter_distance = _vectorize_in_z(angular_diameter_distance_to_z)
lookback_time = _vectorize_in_z(lookback_to_z)
_Om = _vectorize_in_z(_Om_at_z, n_params=3)
"""))
# ---- bursts
R("db-weights", (DB, "    age_weights = fb * burst_weights + (1 - fb) * smooth_age_weights\n\n    return age_weights\n\n\n@jjit\ndef calc_bursty_age_weights_from_u_params(", "    return smooth_age_weights + fb * (burst_weights - smooth_age_weights)\n\n\n@jjit\ndef calc_bursty_age_weights_from_u_params("))
R("db-pure", (DB, """    dlgyr_support = lgyr_max - lgyr_peak
    lgyr_min = lgyr_peak - dlgyr_support
    twx0 = 0.5 * (lgyr_min + lgyr_max)

    dlgyr = lgyr_max - lgyr_min
    twh = dlgyr / 6

    tw_gauss = triweight_gaussian(lgyr, twx0, twh)
""", """    half_width = lgyr_max - lgyr_peak
    tw_gauss = triweight_gaussian(lgyr, lgyr_peak, half_width / 3)
"""))
R("db-compose", (DB, """    fb = 10**burst_params.lgfburst
    age_weights = fb * burst_weights + (1 - fb) * smooth_age_weights

    return age_weights
""", """    return _mix_weights(burst_params.lgfburst, burst_weights, smooth_age_weights)
"""), (DB, None, """

@jjit
def _mix_weights(lgfburst, burst_weights, smooth_weights):
    fburst = jnp.power(10.0, lgfburst)
    return fburst * burst_weights + (1.0 - fburst) * smooth_weights
"""))
R("db-delegate", (DB, """    burst_params = BurstParams(*burst_params)

    ssp_lg_age_yr = ssp_lg_age_gyr + 9.0
    burst_weights = _pureburst_age_weights_from_params(
        ssp_lg_age_yr, burst_params.lgyr_peak, burst_params.lgyr_max
    )

    fb = 10**burst_params.lgfburst
    age_weights = fb * burst_weights + (1 - fb) * smooth_age_weights

    return age_weights
""", """    ssp_lg_age_yr = ssp_lg_age_gyr + 9.0
    return _compute_bursty_age_weights_from_params(
        ssp_lg_age_yr, smooth_age_weights, burst_params
    )
"""))
R("db-norm", (DB, """    s = jnp.sum(x)
    s = jnp.where(s <= 0, 1, s)
    return x / s
""", """    total = x.sum()
    safe_total = jnp.where(total > 0, total, 1.0)
    return x / safe_total
"""))
R("db-unpack", (DB, """    u_lgfburst, u_lgyr_peak, u_lgyr_max = u_params
    lgfburst = _get_lgfburst_from_u_lgfburst(u_lgfburst)
    lgyr_peak, lgyr_max = _get_tburst_params_from_tburst_u_params(
        u_lgyr_peak, u_lgyr_max
    )
    params = BurstParams(lgfburst, lgyr_peak, lgyr_max)
    return params
""", """    u_params = BurstUParams(*u_params)
    lgyr_peak = _get_lgyr_peak_from_u_lgyr_peak(u_params.u_lgyr_peak)
    return BurstParams(
        lgfburst=_get_lgfburst_from_u_lgfburst(u_params.u_lgfburst),
        lgyr_peak=lgyr_peak,
        lgyr_max=_get_lgyr_max_from_lgyr_peak(lgyr_peak, u_params.u_lgyr_max),
    )
"""))
# ---- dust
R("ac-clip", (AC, "    k_lambda = jnp.where(k_lambda < 0, 0, k_lambda)\n", "    k_lambda = jnp.clip(k_lambda, 0.0, None)\n"), many=True)
R("ac-max", (AC, "    att_curve = jnp.where(att_curve < 0, 0, att_curve)\n    return att_curve\n", "    return jnp.maximum(att_curve, 0.0)\n"))
R("ac-att-helper", (AC, """    k_lambda = calzetti00_k_lambda(wave_micron)
    A_lambda = _att_curve_from_k_lambda(k_lambda, av)
    return A_lambda
""", """    return _att_curve_from_k_lambda(calzetti00_k_lambda(wave_micron), av=av)
"""))
R("ac-bump", (AC, """    bump = x**2 * gamma**2 / ((x**2 - x0**2) ** 2 + x**2 * gamma**2)
    return ampl * bump
""", """    num = (x * gamma) ** 2
    denom = jnp.square((x - x0) * (x + x0)) + num
    return ampl * num / denom
"""))
R("ac-where-flip", (AC, "    k_lambda = jnp.where(wave_micron > xc, k_lambda_c00, k_lambda_l02)\n", "    k_lambda = jnp.where(wave_micron <= xc, k_lambda_l02, k_lambda_c00)\n"))
R("ac-c00-where", (AC, "    k_lambda = jnp.where(wave_micron < 0.63, k1, k2)\n    return k_lambda\n", "    is_uv = wave_micron < 0.63\n    return jnp.select([is_uv], [k1], k2)\n"))
R("ac-poly", (AC, "    k1 = 2.659 * (-2.156 + 1.509 * y - 0.198 * y**2 + 0.011 * y**3) + RV_C00\n", "    coeffs = jnp.array([0.011, -0.198, 1.509, -2.156])\n    k1 = 2.659 * jnp.polyval(coeffs, y) + RV_C00\n"))
R("ac-ftrans", (AC, """    ftrans = 10 ** (-0.4 * A_lambda)

    ftrans = ftrans_floor + (1 - ftrans_floor) * ftrans

    return ftrans
""", """    ftrans = jnp.power(10.0, -0.4 * A_lambda)
    return ftrans + ftrans_floor * (1.0 - ftrans)
"""))
R("ac-plaw", (AC, "    x = wave_micron / vband_micron\n    return x**plaw_slope\n", "    return jnp.exp(plaw_slope * jnp.log(wave_micron / vband_micron))\n"))
R("ac-tri", (AC, "    k_lambda = 10**lgk_lambda\n", "    k_lambda = jnp.exp(jnp.log(10.0) * lgk_lambda)\n"))
R("bb-expm1", (BB, "    denom = 1 / (lax.exp(x) - 1)\n    return denom\n\n\n@jjit\ndef _jax_bb_freq_density_exparg", "    denom = 1 / lax.expm1(x)\n    return denom\n\n\n@jjit\ndef _jax_bb_freq_density_exparg"))
R("bb-direct", (BB, """    denom_factor = _wave_density_denom(wave_m, temp_kelvin)
    lg_term1 = LG2 + LGH + 2 * LGC
    lg_term2 = 5 * lax.log(wave_m)
    exparg = lg_term1 - lg_term2
    wave_factor = lax.exp(exparg)
    return wave_factor * denom_factor
""", """    wave_factor = 2 * H_PLANCK * C_SPEED**2 / wave_m**5
    return wave_factor * _wave_density_denom(wave_m, temp_kelvin)
"""))
R("bb-units", (BB, """    wave_m = wave_aa / 1e10
    bb_si = _blackbody_wave_density_si(wave_m, temp_kelvin)
    bb_lsun_per_m = bb_si / WATTS_PER_LSUN  # Lsun/m/sr/m/m
    m_per_aa = 1e-10
    bb_lsun_per_aa = bb_lsun_per_m * m_per_aa
    return bb_lsun_per_aa
""", """    m_per_aa = 1e-10
    bb_si = _blackbody_wave_density_si(wave_aa * m_per_aa, temp_kelvin)
    return bb_si * m_per_aa / WATTS_PER_LSUN
"""))
R("du-weff", (DU, """    norm = trapz(filter_wave, filter_trans)
    lambda_eff_rest = trapz(filter_wave, filter_trans * filter_wave) / norm
    lambda_eff = lambda_eff_rest / (1 + redshift)
    return lambda_eff
""", """    weighted = trapz(filter_wave, filter_wave * filter_trans)
    norm = trapz(filter_wave, filter_trans)
    return weighted / norm / (1.0 + redshift)
"""))
# ---- EW
R("ew-merge", (EW, """    c = _weighted_quadratic_fit(wave, flux, quadfit_w)
    c2, c1, c0 = c

    continuum_strength_at_line = c0 + c1 * line_mid + c2 * line_mid**2

    int_w = _get_integration_weights(wave, line_lo, line_hi)
    continuum_integrand = int_w * (c0 + c1 * wave + c2 * wave * wave)
    spec_integrand = int_w * flux

    continuum_flux_integral = trapz(wave, continuum_integrand)
    spec_flux_integral = trapz(wave, spec_integrand)
    total_line_flux = spec_flux_integral - continuum_flux_integral
    equivalent_width = total_line_flux / continuum_strength_at_line

    return equivalent_width, total_line_flux
""", """    c = _weighted_quadratic_fit(wave, flux, quadfit_w)
    continuum_at_line = jnp.polyval(c, line_mid)
    int_w = _get_integration_weights(wave, line_lo, line_hi)
    total_line_flux = trapz(wave, int_w * (flux - jnp.polyval(c, wave)))
    return total_line_flux / continuum_at_line, total_line_flux
"""))
R("ew-delegate", (EW, """    quadfit_w = _get_quadfit_weights(
        wave, cont_lo_lo, cont_lo_hi, cont_hi_lo, cont_hi_hi
    )
    c = _weighted_quadratic_fit(wave, flux, quadfit_w)
    c2, c1, c0 = c

    continuum_strength_at_line = c0 + c1 * line_mid + c2 * line_mid**2

    int_w = _get_integration_weights(wave, line_lo, line_hi)
    continuum_integrand = int_w * (c0 + c1 * wave + c2 * wave * wave)
    spec_integrand = int_w * flux

    continuum_flux_integral = trapz(wave, continuum_integrand)
    spec_flux_integral = trapz(wave, spec_integrand)
    total_line_flux = spec_flux_integral - continuum_flux_integral
    equivalent_width = total_line_flux / continuum_strength_at_line

    return equivalent_width, total_line_flux
""", """    equivalent_width, total_line_flux, _, _ = _continuum_line_decomp_kern(
        wave,
        flux,
        line_lo,
        line_mid,
        line_hi,
        cont_lo_lo,
        cont_lo_hi,
        cont_hi_lo,
        cont_hi_hi,
    )
    return equivalent_width, total_line_flux
"""))
R("ew-astype", (EW, "    msk = (x >= x2) & (x <= x3)\n    return jnp.where(msk, 1, 0)\n", "    return ((x >= x2) & (x <= x3)).astype(x.dtype)\n"))
R("ew-bands", (EW, """    msk_lo = (x >= x1) & (x <= x2)
    msk_hi = (x >= x3) & (x <= x4)
    msk = msk_lo | msk_hi
    return jnp.where(msk, 1, 0)
""", """    def _in_band(lo, hi):
        return jnp.logical_and(lo <= x, x <= hi)

    in_either_band = jnp.logical_or(_in_band(x1, x2), _in_band(x3, x4))
    return jnp.where(in_either_band, 1.0, 0.0)
"""))
R("ew-stack", (EW, """    lhs = jnp.vander(x, deg + 1)
    rhs = y

    lhs *= w[:, jnp.newaxis]
    rhs *= w
""", """    lhs = jnp.vander(x, deg + 1) * w[:, jnp.newaxis]
    rhs = y * w
"""))
# ---- imf & mzr
R("rm-inline", (RM, """    k1 = 10**lgk1
    xtp = b
    return 10 ** _sig_slope(lg_age_yr, xtp, a, b, k1, d, e)
""", """    lg_frac = _sig_slope(lg_age_yr, xtp=b, ytp=a, x0=b, slope_k=10**lgk1, lo=d, hi=e)
    return 10**lg_frac
"""))
R("rm-dict", (RM, "SALPETER_PARAMS = deepcopy(DEFAULT_PARAMS)\n", "SALPETER_PARAMS = OrderedDict(DEFAULT_PARAMS)\n"), (RM, "SALPETER_PARAMS.update(a=-1.67)\n", "SALPETER_PARAMS[\"a\"] = -1.67\n"))
R("sm-ret", (SM, """    k1 = 10**lgk1
    xtp = b
    z = _sig_slope(lg_age_yr, xtp, a, b, k1, d, e)

    k2 = 10**lgk2
    h = _sigmoid(lg_age_yr, f, k2, h, z)
    return h
""", """    k1, k2 = 10**lgk1, 10**lgk2
    upper = _sig_slope(lg_age_yr, b, a, b, k1, d, e)
    return _sigmoid(lg_age_yr, f, k2, h, upper)
"""))
R("sm-params", (SM, "SALPETER_PARAMS = deepcopy(DEFAULT_PARAMS)\n", ""), (SM, "SALPETER_PARAMS.update(a=0.13, d=0.055)\n", "SALPETER_PARAMS = OrderedDict({**DEFAULT_PARAMS, \"a\": 0.13, \"d\": 0.055})\n"))
R("mz-min", (MZ, "    return jnp.where(logZ_reduction > 0, 0, logZ_reduction)\n", "    return jnp.minimum(logZ_reduction, 0.0)\n"))
R("mz-clip", (MZ, "    t_lookback = jnp.where(t_lookback < 0, 0, t_lookback)\n", "    t_lookback = jnp.clip(t_lookback, 0.0, None)\n"))
R("mz-args", (MZ, """    xtp = tc
    args = xtp, y_at_tc, tc, k, late_time_slope, early_time_slope
    logZ_reduction = _sig_slope(t_lookback, *args)
    return logZ_reduction
""", """    return _sig_slope(
        t_lookback, tc, y_at_tc, tc, k, lo=late_time_slope, hi=early_time_slope
    )
"""))
R("mz-bcast", (MZ, "    tlook_c = tlook_c + jnp.zeros_like(lgmstar)\n", "    tlook_c = jnp.broadcast_to(tlook_c, jnp.shape(lgmstar))\n"))
R("um-bounded", (UM, """    u_parr = jnp.array([getattr(u_params, u_pname) for u_pname in _MZR_UPNAMES])

    # First ignore the non-square bounds
    params = MZRParams(
        *_get_params_kern(u_parr, jnp.array((list(MZR_PBDICT.values()))))
    )
""", """    bounded = [
        _get_square_bounded_param(u_p, bound)
        for u_p, bound in zip(u_params, MZR_PBDICT.values())
    ]
    params = MZRParams(*bounded)
"""))
R("um-ran", (UM, """    nparams = len(bounds_pdict)
    bounds = list(bounds_pdict.values())
    params = []
    for ip in range(nparams):
        ran_key, p_key = jran.split(ran_key, 2)
        u = jran.uniform(p_key, minval=bounds[ip][0], maxval=bounds[ip][1], shape=())
        params.append(u)
    return params
""", """    params = []
    for lo, hi in bounds_pdict.values():
        ran_key, p_key = jran.split(ran_key, 2)
        params.append(jran.uniform(p_key, shape=(), minval=lo, maxval=hi))
    return params
"""))
R("um-dict", (UM, """    params = params._replace(mzr_t0_slope_hi=mzr_t0_slope_hi)

    return params
""", """    pdict = params._asdict()
    pdict["mzr_t0_slope_hi"] = mzr_t0_slope_hi
    return MZRParams(**pdict)
"""))
R("um-square", (UM, """    lo, hi = bound
    mid = 0.5 * (lo + hi)
    return _sigmoid(u_param, mid, BOUNDING_K, lo, hi)
""", """    lo = bound[0]
    hi = bound[1]
    return _sigmoid(u_param, lo + (hi - lo) / 2, BOUNDING_K, lo, hi)
"""))
