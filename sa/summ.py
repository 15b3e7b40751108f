"""Modular summaries.

A call of a function whose own obligation proves it congruent to a reference
definition is replaced, result leaf by result leaf, with an application atom of
that definition over the arguments' value numbers.  The reference side names its
own calls in the same way, so composites are compared by their composition only.
A call is summarised only when its arguments meet the callee's declared domain.
"""
from .pairs import PAIRS
from .sigs import FACTS, SIGS
from .terms import *
from . import terms as T
from .values import *

SUMMARISED = [
    "dsps.sed.stellar_age_weights._calc_logsm_table_from_sfh_table",
    "dsps.sed.stellar_age_weights._calc_age_weights_from_logsm_table",
    "dsps.sed.stellar_age_weights.calc_age_weights_from_sfh_table",
    "dsps.sed.stellar_age_weights._get_lgt_birth",
    "dsps.sed.stellar_age_weights._get_lg_age_bin_edges",
    "dsps.sed.metallicity_weights.calc_lgmet_weights_from_lognormal_mdf",
    "dsps.sed.metallicity_weights.calc_lgmet_weights_from_lgmet_table",
    "dsps.sed.metallicity_weights._get_lgmet_weights_singlegal",
    "dsps.sed.ssp_weights.calc_ssp_weights_sfh_table_lognormal_mdf",
    "dsps.sed.ssp_weights.calc_ssp_weights_sfh_table_met_table",
    "dsps.utils.cumulative_mstar_formed",
    "dsps.utils._get_bin_edges",
]


def table(names):
    t = {}
    for n in names:
        t[n] = (n, PAIRS[n])
        t[PAIRS[n]] = (n, PAIRS[n])
    return t


def _encode(a):
    """array value -> Term | Lam over its axes (outermost last to close)"""
    t = a.body
    n = a.ndim
    if not n:
        return t
    for j in reversed(range(n)):
        if a.shape[j] is ONE_T:
            t = T.fn("row1", t)
            continue
        l = T.mk_lam(a.axvar(j), a.shape[j], t)
        if j == 0:
            return l
        t = T.fn("row", l)
    return t


def applicable(name, vals, I):
    """arguments of the call, encoded, or None"""
    from .models import asarr
    from .session import Decl, MASKS

    if name in FACTS:
        return None
    sig = SIGS[name]
    if len(vals) != len(sig):
        return None
    dims = {}
    out = []
    for (pn, d), v in zip(sig, vals):
        if not isinstance(d, str):
            return None
        d = Decl(d)
        try:
            v = asarr(v, I)
        except Exception:
            return None
        if v.ndim != len(d.dims()) or v.dtype not in ("f", "i"):
            return None
        if v.dtype == "i" and v.ndim:
            return None
        for s, x in zip(d.dims(), v.shape):
            if dims.setdefault(s, x) is not x:
                return None
            if x.is_const() and x.const() < 3:
                return None
        for fl in d.flags:
            if fl == "asc":
                continue
            m = MASKS.get(fl)
            if m is None:
                return None
            if T.sign(v.body) & ~m:
                return None
        out.append(v)
    return [_encode(_open(v)) for v in out]


def _open(v):
    """arguments are named by their value, not by how intermediate values were boxed"""
    try:
        b = T.unbox(v.body)
    except (T.TooBig, RecursionError):
        return v
    if b is v.body:
        return v
    return Arr(v.shape, b, v.dtype, v.lib)


def apply(I, f, vals, result):
    name, spec = I.summaries[f.qual]
    enc = applicable(name, vals, I)
    if enc is None:
        return result
    I.summ_uses.add(name)
    k = [0]

    def leaf(v):
        if isinstance(v, NTInst):
            return NTInst(v.cls, [leaf(x) for x in v.vals])
        if isinstance(v, (tuple, list)):
            return type(v)(leaf(x) for x in v)
        if not isinstance(v, Arr):
            k[0] += 1
            return v
        idx = [ZERO_T if s is ONE_T else atom_term(ax(v.ndim - 1 - j, s)) for j, s in enumerate(v.shape)]
        t = T.fn("app", spec, k[0], tuple_key(enc), *enc, *idx)
        k[0] += 1
        o = I.atom_origin
        loc = I.loc
        if loc is not None and t.monos:
            o.setdefault(t.monos[0][0][0][0].key, loc)
        return Arr(v.shape, t, v.dtype, v.lib)

    return leaf(result)


def tuple_key(enc):
    return len(enc)


def apps_in(t):
    """names of the definitions applied anywhere in t"""
    return {a.data[1][0] for a in T.atoms_in(t) if a.kind == "fn" and a.data[0] == "app"}
