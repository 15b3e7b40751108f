from . import custom
from .registry import Prop, congs

UM = "dsps.metallicity.umzr."
MZR_BOX = (("mzr_t0_ytp", "-1", "0.25"), ("mzr_t0_x0", "10.25", "10.75"), ("mzr_t0_k", "0.5", "2"), ("mzr_t0_slope_lo", "0.1", "1"),
           ("mzr_t0_slope_hi", None, None), ("c0_y_at_tlook_c", "-2", "-1"), ("c1_y_at_tlook_c", "0", "0.5"),
           ("c0_early_time_slope", "-1.5", "-0.5"), ("c1_early_time_slope", "0", "0.5"))
MZR_F = [(n, "" if lo is None else "in(%s,%s)" % (lo, hi)) for n, lo, hi in MZR_BOX]
MZR_F = [(n, d + " >0" if n in ("mzr_t0_slope_hi", "mzr_t0_slope_lo", "c1_y_at_tlook_c", "c1_early_time_slope") else d) for n, d in MZR_F]
MZR_U = [("u_" + n, "") for n, _, _ in MZR_BOX]


def _box(b):
    from fractions import Fraction as F
    out = []
    for n, lo, hi in MZR_BOX:
        if lo is not None:
            out += [(b[n] - F(lo), ">0"), (-b[n] + F(hi), ">0")]
    s, l = b["mzr_t0_slope_hi"], b["mzr_t0_slope_lo"]
    return out + [(s, ">0"), (l - s, ">0")]


def M01_units():
    return [
        custom.nt_cong(UM + "get_bounded_mzr_params", UM + "MZRUParams", "specs.mzr.bounded", MZR_U, out=UM + "MZRParams"),
        custom.nt_cong(UM + "get_unbounded_mzr_params", UM + "MZRParams", "specs.mzr.unbounded", MZR_F, _box, out=UM + "MZRUParams"),
        custom.roundtrip(UM + "get_bounded_mzr_params", UM + "get_unbounded_mzr_params", UM + "MZRUParams", MZR_U),
        custom.roundtrip(UM + "get_unbounded_mzr_params", UM + "get_bounded_mzr_params", UM + "MZRParams", MZR_F, _box),
    ]


def B01_extra():
    B = "dsps.sfh.diffburst."
    box = [("lgfburst", "in(-8,-1)"), ("lgyr_peak", "in(5,8)"), ("lgyr_max", "")]

    def facts(b):
        f, p, m = b["lgfburst"], b["lgyr_peak"], b["lgyr_max"]
        return [(f + 8, ">0"), (-f - 1, ">0"), (p - 5, ">0"), (-p + 8, ">0"), (m - p - 1, ">0"), (-m + 9, ">0")]

    u = [("u_" + n, "") for n, _ in box]
    return [custom.roundtrip(B + "_get_params_from_u_params", B + "_get_u_params_from_params", B + "BurstUParams", u),
            custom.roundtrip(B + "_get_u_params_from_params", B + "_get_params_from_u_params", B + "BurstParams", box, facts)]


def P01_units():
    return [custom.inverse_cdf_sampler("dsps.utils.powerlaw_rvs", "specs.kernels.powerlaw_ppf",
                                       [("ran_key", "key"), ("a", "[n] >0"), ("b", "[n] >0"), ("g", "[n] !=0")])]


def _star(coll, cut=None):
    """(inputs, *collection)"""
    def mk(S, a):
        c = S.I.iterate(S.resolve(coll)) if coll else []
        c = list(c)
        return list(a) + (c[:cut] if cut else c), {}
    return mk


def _values(coll):
    def mk(S, a):
        d = S.resolve(coll)
        return list(a) + list(d.values() if isinstance(d, dict) else S.I.iterate(d)), {}
    return mk


def _kw(coll):
    def mk(S, a):
        return list(a), dict(S.resolve(coll))
    return mk


def _lit(*vals):
    from fractions import Fraction as F

    def mk(S, a):
        return list(a) + [F(str(v)) for v in vals]
    return mk


Z, ZN = ("redshift", ">=0"), ("redshift", "[nz] >=0")
COSMO_FN = [("comoving_distance_to_z", "comoving_distance", Z), ("luminosity_distance_to_z", "luminosity_distance", Z),
            ("angular_diameter_distance_to_z", "angular_diameter_distance", Z), ("distance_modulus_to_z", "distance_modulus", Z),
            ("lookback_to_z", "lookback", Z), ("age_at_z", "age_at_z", ZN), ("age_at_z0", "age_at_z0", None), ("rho_crit", "rho_crit", Z)]


def K01_units():
    from specs import constants as K
    out = []
    C = "dsps.cosmology."
    for f, sp, z in COSMO_FN:
        out.append(custom.applied("%s(z, *PLANCK15)" % f, C + f, _star(C + "PLANCK15"), "specs.cosmo." + sp, _lit(*K.PLANCK15), [z] if z else []))
    for n in ("WMAP5", "FSPS_COSMO"):
        out.append(custom.applied("luminosity_distance_to_z(z, *%s)" % n, C + "luminosity_distance_to_z", _star(C + n),
                                  "specs.cosmo.luminosity_distance", _lit(*getattr(K, n)), [Z]))
    out.append(custom.applied("luminosity_distance_to_z(z, *DEFAULT_COSMOLOGY)", C + "luminosity_distance_to_z", _star(C + "DEFAULT_COSMOLOGY"),
                              "specs.cosmo.luminosity_distance", _lit(*K.PLANCK15), [Z]))
    out.append(custom.const_eq(C + "TODAY", lambda S: S.run("specs.cosmo.age_at_z0", _lit(*K.PLANCK15)(S, []))[0], rule="today"))

    def byname(S, a):
        c = S.resolve("dsps.cosmology.CosmoParams")
        v = S.I.call(c, [], dict(zip(("h", "wa", "w0", "Om0"), a[1:][::-1])))
        return [a[0]] + list(v.vals), {}

    cos = [("Om0", "in(0,1)"), ("w0", ""), ("wa", ""), ("h", ">0")]
    out.append(custom.applied("luminosity_distance_to_z(z, *CosmoParams(h=, wa=, w0=, Om0=))", C + "luminosity_distance_to_z", byname,
                              "specs.cosmo.luminosity_distance", lambda S, a: list(a), [Z] + cos))
    return out


def K02_units():
    from specs import tables as imf
    out = []
    age = [("lg_age_yr", "[n]")]
    for k, v in imf.REMNANT.items():
        f = "dsps.imf.remnant_mass.remnant_mass"
        c = "dsps.imf.remnant_mass.%s_PARAMS" % k
        out.append(custom.applied("remnant_mass(x, **%s_PARAMS)" % k, f, _kw(c), "specs.imf.remnant", _lit(*v), age))
        out.append(custom.applied("remnant_mass(x, *%s_PARAMS.values())" % k, f, _values(c), "specs.imf.remnant", _lit(*v), age))
    for k, v in imf.SURVIVING.items():
        f = "dsps.imf.surviving_mstar.surviving_mstar"
        c = "dsps.imf.surviving_mstar.%s_PARAMS" % k
        out.append(custom.applied("surviving_mstar(x, **%s_PARAMS)" % k, f, _kw(c), "specs.imf.surviving", _lit(*v), age))
        out.append(custom.applied("surviving_mstar(x, *%s_PARAMS.values())" % k, f, _values(c), "specs.imf.surviving", _lit(*v), age))
    return out


def K03_units():
    from specs import tables as mzr
    M = "dsps.metallicity."
    lt = [("logsm", "[n]"), ("t", "")]
    out = [
        custom.applied("mzr_model(logsm, t, *DEFAULT_MET_PARAMS[:-1])", M + "mzr.mzr_model", _star(M + "mzr.DEFAULT_MET_PARAMS", -1), "specs.mzr.model", _lit(*mzr.MZR_DEFAULTS), lt),
        custom.applied("mzr_model(logsm, t, *defaults.DEFAULT_MET_PARAMS[:-1])", M + "mzr.mzr_model", _star(M + "defaults.DEFAULT_MET_PARAMS", -1), "specs.mzr.model",
                       _lit(*mzr.MZR_DEFAULTS), lt),
        custom.applied("mzr_model_t0(logsm, *MZR_T0_PDICT.values())", M + "mzr.mzr_model_t0", _values(M + "mzr.MZR_T0_PDICT"), "specs.mzr.t0_model", _lit(*mzr.MZR_DEFAULTS[:5]), lt[:1]),
        custom.applied("mzr_evolution_model(logsm, t, *MZR_VS_T_PDICT.values())", M + "mzr.mzr_evolution_model", _values(M + "mzr.MZR_VS_T_PDICT"),
                       "specs.mzr.evolution", _lit(*mzr.MZR_DEFAULTS[5:]), lt),
        custom.applied("umzr.mzr_model(logsm, t, *DEFAULT_MZR_PARAMS)", M + "umzr.mzr_model", _star(M + "umzr.DEFAULT_MZR_PARAMS"), "specs.mzr.model_u",
                       _lit(*(mzr.MZR_DEFAULTS[:7] + mzr.MZR_DEFAULTS[8:])), lt),
        # both parametrisations agree at the defaults, whatever the mass and time
        custom.applied("umzr.mzr_model at defaults = mzr.mzr_model at defaults", M + "umzr.mzr_model", _star(M + "umzr.DEFAULT_MZR_PARAMS"),
                       M + "mzr.mzr_model", lambda S, a: _star(M + "mzr.DEFAULT_MET_PARAMS", -1)(S, a)[0], lt),
    ]
    for f, mp, sp in (("mzr_model", "DEFAULT_MZR_PDICT", "model_u"),):
        out.append(custom.applied("umzr.%s(logsm, t, **%s)" % (f, mp), M + "umzr." + f, _kw(M + "umzr." + mp), "specs.mzr." + sp,
                                  _lit(*(mzr.MZR_DEFAULTS[:7] + mzr.MZR_DEFAULTS[8:])), lt))

    def byname(S, a):
        c = S.resolve(M + "umzr.MZRParams")
        names = [n for n, _, _ in MZR_BOX]
        v = S.I.call(c, [], dict(list(zip(names, a[2:]))[::-1]))
        return list(a[:2]) + list(v.vals), {}

    out.append(custom.applied("umzr.mzr_model(logsm, t, *MZRParams(...))", M + "umzr.mzr_model", byname, "specs.mzr.model_u", lambda S, a: list(a), lt + [(n, "") for n, _, _ in MZR_BOX]))
    out.append(custom.applied("umzr.DEFAULT_MZR_U_PARAMS map to the defaults", M + "umzr.get_bounded_mzr_params",
                              lambda S, a: ([S.resolve(M + "umzr.DEFAULT_MZR_U_PARAMS")], {}), "specs.mzr.as_tuple", _lit(*(mzr.MZR_DEFAULTS[:7] + mzr.MZR_DEFAULTS[8:])), []))
    for z, (m0, k0) in mzr.MAIOLINO.items():
        def mk(S, a, z=z):
            from fractions import Fraction as F
            d = S.resolve(M + "mzr.MAIOLINO08_PARAMS")
            if F(str(z)) not in d:
                S.fail("applied", "MAIOLINO08_PARAMS", S.loc_of(M + "mzr.maiolino08_metallicity_evolution"), "no entry for redshift %s" % z)
                return list(a) + _lit(m0, k0)(S, a)[-2:], {}
            return list(a) + list(d[F(str(z))]), {}
        out.append(custom.applied("maiolino08(logsm, *MAIOLINO08_PARAMS[%s])" % z, M + "mzr.maiolino08_metallicity_evolution", mk, "specs.mzr.maiolino", _lit(m0, k0), lt[:1]))
    B = "dsps.sfh.diffburst."
    sw = [("smooth_age_weights", "[na]"), ("ssp_lg_age_gyr", "[na]")]

    def burst_named(S, a):
        c = S.resolve(B + "BurstParams")
        v = S.I.call(c, [], {"lgyr_max": a[2], "lgfburst": a[0], "lgyr_peak": a[1]})
        return [v] + list(a[3:]), {}

    out.append(custom.applied("calc_bursty_age_weights(DEFAULT_BURST_PARAMS, …)", B + "calc_bursty_age_weights", lambda S, a: ([S.resolve(B + "DEFAULT_BURST_PARAMS")] + list(a), {}),
                              "specs.burst.mix", lambda S, a: [tuple(_lit(*mzr.BURST_DEFAULTS)(S, []))] + list(a), sw))
    return out


def F04_units():
    from . import terms as T
    from .models import dimval
    from .session import Inputs, unnamed
    from .units import Unit
    name = "dsps.photometry.utils.interpolate_filter_trans_curves"
    out = []
    for k in (1, 2, 3):
        for how in ("default", "n", "keyword", "tuple"):
            def fn(S, k=k, how=how):
                where = S.loc_of(name)
                inp = Inputs([("w%d" % i, "[n%d] >0" % i) for i in range(k)] + [("t%d" % i, "[n%d]" % i) for i in range(k)], lib="np")
                ws, ts = list(inp.args[:k]), list(inp.args[k:])
                if how == "tuple":
                    ws, ts = tuple(ws), tuple(ts)
                nn = dimval(T.dim("nout", 2))
                extra, kw = ([nn], {}) if how == "n" else ([], {"n": nn}) if how == "keyword" else ([], {})
                with inp.assume():
                    if how == "keyword":
                        v, raises, ev = S.run(name, [], dict(wave_filters=ws, trans_filters=ts, **kw))
                    else:
                        v, raises, ev = S.run(name, [ws, ts] + extra)
                    w, _, _ = S.run("specs.phot.common_grid", [ws, ts] + ([nn] if extra or kw else []))
                for g, e in raises:
                    S.fail("raises", name, where, "raises %s for some documented inputs" % e.exc)
                S.check_eq("congruence", "%s (%d curves, %s)" % (name, k, how), unnamed(S.I, v), unnamed(S.I, w), where, inp)
            out.append(Unit("cong:%s:%d:%s" % (name, k, how), fn, name))
    return out


Prop("M01", "Mass-metallicity parameters map to and from unbounded space and back",
     "Unbounded parameters of the mass-metallicity relation map through logistic sigmoids (k = 0.1) into their documented intervals, with the high-mass slope between 0 and the low-mass slope, each field to the field of its own name. "
     "The inverse map is the inverse sigmoid with the same bounds; mapping there and back returns the same parameters, in both directions. "
     "The results are the named collections of bounded and unbounded parameters, in field order.",
     "every unbounded parameter set and every bounded one inside the intervals",
     "tests round-trip 100 random points at 1% tolerance",
     ["dsps/metallicity/umzr.py", "dsps/utils.py"], [("get_bounded_mzr_params, get_unbounded_mzr_params", "dsps/metallicity/umzr.py:get_bounded_mzr_params")],
     M01_units, 30)

Prop("E01", "Equivalent width = line flux above a quadratic fitted to the side bands",
     "The continuum is the least-squares quadratic through the pixels inside either closed side band; the line flux is the trapezoid integral of spectrum minus continuum with weight one on pixels inside the closed line window and zero elsewhere. "
     "The equivalent width is that flux over the continuum at the line centre, and the decomposition also returns the continuum at the centre and the coefficients, highest order first.",
     "every spectrum, wavelength grid and placement of the bands",
     "tests check one Gaussian line on a power-law continuum",
     ["dsps/em_lines/equivalent_width.py", "dsps/utils.py"], [("_ew_kernel, _continuum_line_decomp_kern", "dsps/em_lines/equivalent_width.py:_ew_kernel")],
     lambda: congs("dsps.em_lines.equivalent_width.", "_ew_kernel", "_continuum_line_decomp_kern") + congs("dsps.em_lines.equivalent_width.", "_weighted_quadratic_fit", optional=True), 6,
     assume=["the least-squares problem has full rank; its solution is an uninterpreted functional of the design columns and data, covariant under column scaling"])

Prop("P01", "Power-law draws are the inverse CDF of one independent uniform per element",
     "Element i of the draw is (a^g + (b^g - a^g) u_i)^(1/g), with its own a, b, g and its own uniform number u_i from the given random key, so it follows the density proportional to x^(g-1) on [a, b]. "
     "The numbers of different elements are independent and depend on nothing but the key.",
     "every key, bounds and index arrays",
     "tests compare histograms of a few samples",
     ["dsps/utils.py"], [("powerlaw_rvs", "dsps/utils.py:powerlaw_rvs")], P01_units, 4)

Prop("K01", "Named cosmologies feed every distance and age function in parameter order",
     "Unpacking PLANCK15, WMAP5, FSPS_COSMO, DEFAULT_COSMOLOGY (= PLANCK15) or any CosmoParams built by keyword into a distance, time or density function gives the (Om0, w0, wa, h) model of the published values at every redshift. "
     "TODAY is the age at z = 0 of the default cosmology.",
     "every redshift, and every parameter value for CosmoParams",
     "tests compare a few redshifts with tables at loose tolerance",
     ["dsps/cosmology/flat_wcdm.py", "dsps/cosmology/defaults.py", "dsps/cosmology/__init__.py"], [("CosmoParams, PLANCK15", "dsps/cosmology/flat_wcdm.py:CosmoParams")], K01_units, 13)

Prop("K02", "Named IMF calibrations give the published remnant and surviving fractions",
     "At every age, remnant_mass and surviving_mstar called with the Salpeter, Chabrier, Kroupa, van Dokkum or default calibration, by keyword or as positional values, equal the documented fit with the published parameter values of that IMF.",
     "every age array and each named IMF",
     "tests compare with tables at loose tolerance on one age grid",
     ["dsps/imf/remnant_mass.py", "dsps/imf/surviving_mstar.py"], [("SALPETER_PARAMS and the others", "dsps/imf/surviving_mstar.py:SALPETER_PARAMS")], K02_units, 20)

Prop("K03", "Default metallicity and burst parameter sets feed their models in order",
     "At every mass and time the default metallicity parameters, unpacked into mzr_model or its parts, give the model at their published values; the unbounded-parameter module agrees with it exactly at its defaults, and its unbounded defaults map back to them. "
     "Each tabulated Maiolino (2008) pair and the default burst parameters give their published relation.",
     "every stellar mass, cosmic time, SSP age grid and smooth weights",
     "tests compare a few masses and times at loose tolerance",
     ["dsps/metallicity/mzr.py", "dsps/metallicity/umzr.py", "dsps/metallicity/defaults.py", "dsps/sfh/diffburst.py"],
     [("DEFAULT_MET_PARAMS, DEFAULT_MZR_PARAMS", "dsps/metallicity/mzr.py:DEFAULT_MET_PARAMS")], K03_units, 24)

Prop("F04", "Filter curves are resampled on their own range to one common length",
     "Each output row has n points equally spaced from the minimum to the maximum wavelength of its own filter, with the transmission linearly interpolated from that filter's curve; n defaults to the shortest curve's length. "
     "Rows keep the order of the input filters, whatever their lengths and ranges.",
     "every collection of one to three curves of any lengths, with and without n",
     "tests do not cover it",
     ["dsps/photometry/utils.py"], [("interpolate_filter_trans_curves", "dsps/photometry/utils.py:interpolate_filter_trans_curves")], F04_units, 24,
     assume=["collections of one, two and three curves are analysed; lengths are symbolic"])
