"""Data loaders and the on-disk format: decided over an abstract environment."""
import ast
import itertools
import os
from fractions import Fraction as F

from . import models as M
from . import terms as T
from .absint import Env, PyRaise, Unsupported
from .hostworld import CVec, StrArr, World, explore, npath, pieces, pkey, pshow
from .registry import Prop
from .session import merge
from .terms import Term, band, bnot, fn, num, ONE_T, ZERO_T, sym
from .units import Unit
from .values import *

POS_ = T.POS

L = "dsps.data_loaders."
SSP = L + "load_ssp_data.load_ssp_templates"
TCF = L + "load_filter_data.load_transmission_curve"
BNAME = "ssp_data_fsps_v3.2_lgmet_age.h5"
L_SUN = F("3.828e33")
IO_TECH = ("static path enumeration: abstract interpretation of the loaders over an abstract environment (symbolic paths, environment values and "
           "file contents; both answers of every question about the environment), each path's opened file, result value graph or exception compared with the required one")
IO_NOTE = ("Every path through the loader is enumerated over symbolic path names and symbolic dataset contents; nothing is opened or executed. "
           "The environment model (os.environ, os.path, glob, h5py, argparse, python-fsps) is trusted. Number of emission lines bounded to the listed cases.")


def P(n):
    return Op("path", n)


def dataset(lines=None, tag="ds"):
    m = lambda nm, dims: mk(dims, lambda i: fn(tag, nm, *i), lib="np")
    nm, na, nw = T.dim("n_met", 2), T.dim("n_age", 2), T.dim("n_wave", 2)
    d = {"ssp_lgmet": m("ssp_lgmet", [nm]), "ssp_lg_age_gyr": m("ssp_lg_age_gyr", [na]), "ssp_wave": m("ssp_wave", [nw]),
         "ssp_flux": m("ssp_flux", [nm, na, nw])}
    if lines:
        k = len(lines)
        d["ssp_emline_name"] = StrArr([x.encode() for x in lines])
        d["ssp_emline_wave"] = m("ssp_emline_wave", [k])
        d["ssp_emline_luminosity"] = m("ssp_emline_luminosity", [nm, na, k])
    return d


def exc_of(r):
    return r["raised"].exc if "raised" in r else None


def loc_of_exc(S, r, default):
    e = r.get("raised")
    if e is not None and e.loc and str(e.loc[0]).startswith(S.root):
        return "%s:%s" % (S.rel(e.loc[0]), e.loc[1])
    return default


def prefix_missing(ans, want):
    """the environment answered that the required file (or a directory above it) does not exist"""
    for (q, *a), v in ans.items():
        if v or not q.endswith("exists"):
            continue
        for k in range(1, len(want) + 1):
            if a and a[0] == vkey(Op("path", *want[:k])):
                return True
    return False


def merged(S, outs):
    """outcomes that differ only by value guards -> one value"""
    conds = []
    for w, ans, cs, r in outs:
        c = ONE_T
        for t, v in cs:
            if isinstance(t, Term):
                c = band(c, t if v else bnot(t))
        conds.append((c, r["result"]))
    val = conds[-1][1]
    for c, v in reversed(conds[:-1]):
        val = merge(S.I, c, v, val)
    return val


def describe(ans):
    return "; ".join("%s%s: %s" % (q, "".join(" " + (x if isinstance(x, str) else "…") for x in a), "yes" if v else "no") for (q, *a), v in ans.items()) or "always"


def which_file(label, target, name, call_args, call_kw, want, env=None, glob=False, extra_missing=()):
    """the file opened, on every path: `want` (path value); ValueError when the
    needed environment variable `env` is unset; an exception when the file is missing"""

    def f(S):
        where = S.loc_of(target)
        fv = S.resolve(target)
        outs = explore(S, lambda: World(S.root, default_file=dataset() if "ssp" in target else curve()), lambda w: S.I.call(fv, list(call_args), dict(call_kw)))
        wp = npath(want)
        wk = pkey(want)
        n_ok = 0
        for w, ans, cs, r in outs:
            e = exc_of(r)
            here = loc_of_exc(S, r, where)
            envset = ans.get(("environment variable is set", env)) if env else None
            other = [k for k in ans if k[0] == "environment variable is set" and k[1] != env and ans[k]]
            read = [p for p, m in w.opened if m != "r"]
            if read:
                S.fail("mode", label, where, "%s is opened for writing" % pshow(read[0]))
            if env and envset is False:
                if e != "ValueError":
                    S.fail("env-unset", label, here, "%s unset: %s, required ValueError" % (env, "raises " + e if e else "returns"), key="env-unset|" + label)
                else:
                    S.ok("env-unset", label)
                continue
            if e and any(isinstance(t, Term) for t, _ in cs):
                continue  # rejected contents: another property
            paths = [p for p, m in w.opened]
            if glob:
                pat = vkey(Op("path", *wp))
                none, uniq = ans.get(("no file matches", pat)), ans.get(("exactly one file matches", pat))
                if none is True or (none is False and uniq is False):
                    if not e:
                        S.fail("unique-match", label, where, "%s matches the pattern, required an exception" % ("nothing" if none else "more than one file"))
                    else:
                        S.ok("unique-match", label)
                    continue
            if e:
                if prefix_missing(ans, wp) or any(k[0].endswith("exists") and not v for k, v in ans.items()) and glob:
                    S.ok("missing-file", label)
                else:
                    S.fail("raises", label, here, "raises %s although the file exists (%s)" % (e, describe(ans)))
                continue
            if prefix_missing(ans, wp):
                S.fail("missing-file", label, where, "returns although the required file does not exist")
                continue
            if len(paths) == 0:
                S.fail("opened-file", label, where, "no file is opened, required %s" % pshow(want))
                continue
            for p in paths:
                k = pkey(p)
                if glob:
                    ms = [x for x in pieces(p) if isinstance(x, Op) and x.name == "match"]
                    if len(ms) != 1 or vkey(ms[0].args[1]) != vkey(Op("path", *wp)):
                        S.fail("opened-file", label, where, "opens %s, required the unique match of %s" % (pshow(p), pshow(want)))
                        continue
                elif k != wk:
                    S.fail("opened-file", label, where, "opens %s, required %s (%s)" % (pshow(p), pshow(want), describe(ans)))
                    continue
                S.ok("opened-file", "%s [%s]" % (label, describe(ans)))
                n_ok += 1
        if not n_ok and not S.fails:
            S.fail("opened-file", label, where, "no path opens the required file")

    return Unit("file:" + label, f, target)


def curve():
    n = T.dim("n", 2)
    m = lambda nm: mk([n], lambda i: sym(nm, *i), lib="np")
    return {"wave": m("wave"), "transmission": m("transmission")}


def join(*a):
    return M.path_join(*a)


def L01_units():
    E = Op("env", "DSPS_DRN")
    fn_, drn, bn, pat = P("fn"), P("drn"), P("bn"), P("bn_pat")
    out = []
    for d, b in itertools.product((None, drn), (None, bn)):
        kw = {}
        if d is not None:
            kw["drn"] = d
        if b is not None:
            kw["bn"] = b
        tail = b if b is not None else BNAME
        nm = "ssp(%s)" % ",".join(["fn"] + sorted(kw))
        out.append(which_file(nm, SSP, nm, [fn_], kw, fn_))
        nm = "ssp(%s)" % ",".join(sorted(kw))
        out.append(which_file(nm, SSP, nm, [], kw, join(d if d is not None else E, tail), None if d is not None else "DSPS_DRN"))
    for d, b in itertools.product((None, drn), (None, pat)):
        kw = {}
        if d is not None:
            kw["drn"] = d
        if b is not None:
            kw["bn_pat"] = b
        nm = "filter(%s)" % ",".join(["fn"] + sorted(kw))
        out.append(which_file(nm, TCF, nm, [fn_], kw, fn_))
        if b is not None:
            nm = "filter(%s)" % ",".join(sorted(kw))
            base = join(d, pat) if d is not None else join(E, "filters", pat)
            out.append(which_file(nm, TCF, nm, [], kw, base, None if d is not None else "DSPS_DRN", glob=True))
    out.append(which_file("ssp(positional)", SSP, "", [None, drn, bn], {}, join(drn, bn)))
    out.append(which_file("filter(positional)", TCF, "", [None, pat, drn], {}, join(drn, pat), glob=True))
    out.append(dummy_unit())
    return out


def dummy_unit():
    def f(S):
        where = S.loc_of(SSP)
        fv = S.resolve(SSP)
        fake = S.resolve(L + "load_ssp_data.load_fake_ssp_data")
        key = fake.qual if hasattr(fake, "qual") else None
        if key is None:
            raise Unsupported("the fake-data generator is not a function")
        hits = []
        orig = S.I.call_func

        def call_func(g, args, kwargs, node=None, mod=None):
            if g is fake:
                hits.append((args, kwargs))
                return Op("fake-data")
            return orig(g, args, kwargs, node, mod)

        S.I.call_func = call_func
        try:
            for a, kw in (([], {}), ([P("fn")], {}), ([None, P("drn")], {})):
                for w, ans, cs, r in explore(S, lambda: World(S.root, default_file=dataset()), lambda w: S.I.call(fv, list(a), {"dummy": True})):
                    if exc_of(r) or vkey(r["result"]) != vkey(Op("fake-data")) or w.opened:
                        S.fail("dummy", "load_ssp_templates(dummy=True)", where, "does not return the synthetic data for dummy=True (%s)" % (exc_of(r) or "reads files"))
                    else:
                        S.ok("dummy", "load_ssp_templates(dummy=True)")
        finally:
            del S.I.call_func

    return Unit("dummy", f, SSP)


# ------------------------------------------------------------------ contents


def nt(S, cls, **kw):
    c = S.resolve(cls)
    return M.call_ntclass(S.I, c, [], kw)


def emnt(S, names, vals):
    return NTInst(NTClass("EmLineWave", list(names)), list(vals))


def strip_cls(v):
    """collections compare by field names and values"""
    return v


LINES = (None, ["C_IV_1548"], ["Ha_6563", "Ba_beta", "C_IV_1548"])


def expected_read(S, d, names):
    kw = {k: d[k] for k in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux")}
    if names:
        lw = d["ssp_emline_wave"]
        kw["ssp_emline_wave"] = emnt(S, names, [M.take(lw, 0, num(k)) for k in range(len(names))])
        lum = d["ssp_emline_luminosity"]
        kw["ssp_emline_luminosity"] = Arr(lum.shape, lum.body * num(L_SUN), "f", "np")
    else:
        kw["ssp_emline_wave"] = None
        kw["ssp_emline_luminosity"] = None
    return nt(S, L + "defaults.SSPData", **kw)


def run_one(S, world, thunk, rule, what, where):
    """paths of a run that must not raise; merged by their value guards"""
    outs = explore(S, world, thunk)
    bad = [(o, exc_of(o[3])) for o in outs if exc_of(o[3])]
    for o, e in bad:
        S.fail(rule, what, loc_of_exc(S, o[3], where), "raises %s%s for documented inputs (%s)" % (e, tuple(str(x)[:100] for x in o[3]["raised"].eargs), describe(o[1])), key=rule + "|raises|" + what)
    return [o for o in outs if not exc_of(o[3])]


def reader_unit(names, after_close=False):
    what = "load_ssp_templates(%s)" % ("no lines" if not names else "%d lines" % len(names))

    def f(S):
        where = S.loc_of(SSP)
        fv = S.resolve(SSP)
        d = dataset(names)
        outs = run_one(S, lambda: World(S.root, fixed={"file exists": True}, default_file=d), lambda w: S.I.call(fv, [P("fn")], {}), "reader", what, where)
        for w, ans, cs, r in outs:
            v = r["result"]
            if not isinstance(v, NTInst) or v.cls.name != "SSPData":
                S.fail("reader", what, where, "result is %s, required SSPData" % srepr(v)[:80])
                continue
            S.check_eq("reader", what, v, expected_read(S, d, names), where)

    return Unit("reader:" + what, f, SSP)


def run_script(S, rel):
    path = os.path.join(S.root, rel)
    if not os.path.isfile(path):
        raise Unsupported("script %s is gone" % rel)
    m = Module("__main__", path)
    m.src = open(path, encoding="utf-8").read()
    m.tree = ast.parse(m.src, path)
    m.is_pkg, m.order = False, 0
    m.env["__name__"] = "__main__"
    m.env["__file__"] = Op("join", Op("ROOT"), *rel.split("/"))
    env = Env(None, m)
    env.vars = m.env
    S.I.functions.setdefault("<script %s>" % rel, (path, 1))
    S.I.exec_block(m.tree.body, env, m)


def table_rows(S):
    p = os.path.join(S.root, "dsps/data/emlines_info.dat")
    rows = []
    for ln in open(p, encoding="utf-8").read().splitlines():
        if ln.strip():
            w, n = ln.strip().split(",")
            rows.append((F(w), ident(n)))
    return rows


def ident(n):
    out = ""
    for c in n:
        out += {".": "p", "-": "_", " ": "_", "[": "", "]": ""}.get(c, c)
    return out


def fsps_expected(S, w, kw, rows, lsun=False):
    """the SSP block of python-fsps for keyword arguments kw"""
    from .hostworld import Pop
    I = S.I
    nm = w.n_met
    base = Pop(w, dict(kw, zcontinuous=0))
    lgmet = mk([nm], lambda i: T.log10(fn("fsps_z", i[0])), lib="np")
    age = mk([w.n_age], lambda i: fn("fsps_log_age", i[0]) - 9, lib="np")
    wave = mk([w.n_wave], lambda i: fn("fsps_wave", i[0]), lib="np")

    def stack(tail, el):
        k = int(nm.const())
        items = [mk(tail, lambda i, z=z: el(num(z + 1), i), lib="np") for z in range(k)]
        return M.from_items(items)

    flux = stack([w.n_age, w.n_wave], lambda z, i: fn("fsps_spec", base.tag(), z, *i))
    d = dict(ssp_lgmet=lgmet, ssp_lg_age_gyr=age, ssp_wave=wave, ssp_flux=flux)
    if rows:
        d["ssp_emline_wave"] = emnt(S, [n for _, n in rows], [x for x, _ in rows])
        lum = stack([w.n_age, len(rows)], lambda z, i: fn("fsps_lum", base.tag(), z, *i))
        if lsun:
            lum = Arr(lum.shape, lum.body * num(L_SUN), "f", "np")
        d["ssp_emline_luminosity"] = lum
    else:
        d["ssp_emline_wave"] = d["ssp_emline_luminosity"] = None
    return nt(S, L + "defaults.SSPData", **d)


def fsps_world(S, rows):
    def mkw():
        w = World(S.root)
        w.emlines = [x for x, _ in rows] if rows else None
        return w
    return mkw


PICK = (70, 3, 160, 41)


def pick(S, with_lines):
    if not with_lines:
        return None
    r = table_rows(S)
    return [r[k % len(r)] for k in PICK]


RETR = L + "retrieve_fsps_data.retrieve_ssp_data_from_fsps"


def retrieve_unit(with_lines, kw, label):
    what = "retrieve_ssp_data_from_fsps(%s) %s" % (label, "with lines" if with_lines else "without lines")

    def f(S):
        where = S.loc_of(RETR)
        fv = S.resolve(RETR)
        rows = pick(S, with_lines)
        sig = {"sfh": 0, "imf_type": 2, "gas_logu": Arr((), sym("logu"), "f")} if "kw" in label else {}
        if "options" in label:
            sig = {k: Op("option", k) for k in FSPS_OPTIONS}
        pos = [] if "add_neb" not in kw else [kw["add_neb"]]
        want_kw = dict(sig, add_neb_emission=kw.get("add_neb", True))
        outs = run_one(S, fsps_world(S, rows), lambda w: S.I.call(fv, list(pos), dict(sig)), "retrieve", what, where)
        for w, ans, cs, r in outs:
            S.check_eq("retrieve", what, r["result"], fsps_expected(S, w, want_kw, rows), where)

    return Unit("retrieve:" + what, f, RETR)


# parameters a caller may pass to fsps.StellarPopulation
FSPS_OPTIONS = ("compute_vega_mags", "vactoair_flag", "redshift_colors", "compute_light_ages", "nebemlineinspec", "dust_type", "add_dust_emission",
                "add_agb_dust_model", "add_igm_absorption", "add_stellar_remnants", "smooth_velocity", "smooth_lsf", "cloudy_dust", "agb_dust",
                "tpagb_norm_type", "dell", "delt", "redgb", "agb", "fcstar", "fbhb", "sbss", "pagb", "zred", "pmetals", "imf_type", "imf_upper_limit",
                "imf_lower_limit", "imf1", "imf2", "imf3", "vdmc", "mdave", "evtype", "use_wr_spectra", "logt_wmb_hot", "masscut", "sigma_smooth",
                "min_wave_smooth", "max_wave_smooth", "gas_logu", "gas_logz", "igm_factor", "sfh", "tau", "const", "sf_start", "sf_trunc", "tage",
                "fburst", "tburst", "sf_slope", "dust_tesc", "dust1", "dust2", "dust3", "dust_clumps", "frac_nodust", "frac_obrun", "dust_index",
                "dust1_index", "mwr", "uvb", "wgp1", "wgp2", "wgp3", "duste_gamma", "duste_umin", "duste_qpah", "fagn", "agn_tau")
SCRIPT = "scripts/write_fsps_data_to_disk.py"


def roundtrip_unit(with_lines):
    what = "%s then load_ssp_templates, %s" % (SCRIPT, "with lines" if with_lines else "without lines")

    def f(S):
        where = SCRIPT + ":1"
        fv = S.resolve(SSP)
        rows = pick(S, with_lines)

        def go(w):
            run_script(S, SCRIPT)
            writes = [p for p, m in w.opened if m != "r"]
            if len(writes) != 1 or pkey(writes[0]) != pkey(Op("cli", "outname")):
                return ("file", [pshow(p) for p in writes])
            return ("data", S.I.call(fv, [Op("cli", "outname")], {}))

        outs = run_one(S, fsps_world(S, rows), go, "round-trip", what, where)
        if not outs:
            return
        for w, ans, cs, r in outs:
            k, v = r["result"]
            if k == "file":
                S.fail("output-file", what, where, "writes %s, required the file named on the command line" % (v,))
                continue
            S.ok("output-file", what)
            kw = {"add_neb_emission": True}
            for o in ("gas_logz", "gas_logu"):
                a = ans.get(("command-line option is given", o))
                if a is None:
                    S.fail("option", "--%s" % o, where, "the option has no effect")
                elif a:
                    kw[o] = Arr((), sym("cli_" + o), "f", "np")
            S.check_eq("round-trip", "%s [%s]" % (what, describe(ans)), v, fsps_expected(S, w, kw, rows, lsun=True), where)

    return Unit("roundtrip:" + what, f, SSP)


def L02_units():
    return [reader_unit(n) for n in LINES] + [roundtrip_unit(True), roundtrip_unit(False)]


def L06_units():
    return [retrieve_unit(True, {}, ""), retrieve_unit(False, {}, ""), retrieve_unit(True, {"add_neb": False}, "add_neb_emission=False"),
            retrieve_unit(False, {}, "kw"), retrieve_unit(True, {"add_neb": False}, "add_neb_emission=False, every other options"),
            retrieve_unit(False, {"add_neb": True}, "add_neb_emission=True, every other options")]


# ------------------------------------------------------------------ transmission curve


def L03_units():
    def f(S):
        where = S.loc_of(TCF)
        fv = S.resolve(TCF)
        d = curve()
        outs = explore(S, lambda: World(S.root, fixed={"file exists": True}, default_file=d), lambda w: S.I.call(fv, [P("fn")], {}))
        rej = ZERO_T
        good = []
        for o in outs:
            w, ans, cs, r = o
            c = ONE_T
            for t, v in cs:
                if not isinstance(t, Term):
                    raise Unsupported("branch on %r" % (t,))
                c = band(c, t if v else bnot(t))
            if c is ZERO_T:
                continue
            e = exc_of(r)
            if e:
                if e != "ValueError":
                    S.fail("rejects", "transmission curve", loc_of_exc(S, r, where), "raises %s, required ValueError" % e)
                rej = rej + c
            else:
                good.append((c, r["result"]))
        want, _, _ = S.run("specs.phot.tcurve_rejected", [d["transmission"]])
        S.check_eq("rejects", "transmission curves rejected", Arr((), rej, "b"), Arr((), want.body, "b"), where)
        if not good:
            S.fail("value", "transmission curve", where, "never returns")
            return
        val = good[-1][1]
        for c, v in reversed(good[:-1]):
            val = merge(S.I, c, v, val)
        if not isinstance(val, NTInst) or list(val.cls.fields) != ["wave", "transmission"]:
            S.fail("value", "transmission curve", where, "result is not a TransmissionCurve")
            return
        # compared where the curve is accepted
        acc = bnot(rej)
        cl, _, _ = S.run("specs.phot.tcurve_clipped", [d["transmission"]])
        S.check_eq("value", "wave", val.get("wave"), d["wave"], where)
        got = val.get("transmission")
        if not isinstance(got, Arr) or got.shape != cl.shape:
            S.fail("value", "transmission", where, "shape of the transmission changes")
            return
        S.check_eq("value", "transmission", Arr(got.shape, got.body * acc, "f"), Arr(cl.shape, cl.body * acc, "f"), where)

    return [Unit("transmission", f, TCF)]


def F06_units():
    n = L + "load_filter_data.load_random_transmission_curve"
    from .session import Inputs
    from .terms import atom_term, atoms_in

    def go(S, label, args, kw, centre, inp, facts=()):
        where = S.loc_of(n)
        with inp.assume(facts):
            v, raises, ev = S.run(n, args, kw)
            for g, e in raises:
                S.fail("raises", label, where, "raises %s for documented inputs (when %s)" % (e.exc, T.show(g, 120)))
            if not isinstance(v, NTInst) or list(v.cls.fields) != ["wave", "transmission"]:
                S.fail("value", label, where, "result is not a TransmissionCurve")
                return
            c = centre(v)
            if c is None:
                S.fail("sampler-source", label, where, "the centre is not one uniform number drawn from the given key")
                return
            w, _, _ = S.run("specs.phot.gaussian_filter", list(c))
        S.check_eq("congruence", label, tuple(v.vals), w, where, inp, facts)

    def drawn(S):
        inp = Inputs([("lo", ">0"), ("hi", ">0"), ("scale", ">0")])
        lo, hi, sc = inp.args
        facts = [(hi.body - lo.body - sc.body * 4, POS_)]

        def centre(v):
            us = [a for a in atoms_in(v.get("transmission").body) if a.kind == "fn" and a.data[0] == "uniform01"]
            if len(us) != 1 or "ran_key" not in repr(us[0].data[1][0]) or any("rand:" in a.data[0] or a.data[0] == "normal01" for a in atoms_in(v.get("transmission").body) if a.kind == "fn"):
                return None
            u = Arr((), atom_term(us[0]), "f")
            return (lo, hi, sc, Arr((), lo.body + sc.body * 2 + u.body * (hi.body - lo.body - sc.body * 4), "f"))

        go(S, "drawn centre", [KeyVal(("ran_key",))], {"wave_range": (lo, hi), "scale": sc}, centre, inp, facts)
        inp = Inputs([])

        def centre(v):
            us = [a for a in atoms_in(v.get("transmission").body) if a.kind == "fn" and a.data[0] == "uniform01"]
            if len(us) != 1 or "ran_key" not in repr(us[0].data[1][0]):
                return None
            return (F(1000), F(10000), F(300), Arr((), num(1600) + atom_term(us[0]) * 7800, "f"))

        go(S, "drawn centre, defaults", [KeyVal(("ran_key",))], {}, centre, inp)

    def given(S):
        inp = Inputs([("lo", ">0"), ("hi", ">0"), ("scale", ">0"), ("c", ">0")])
        lo, hi, sc, c = inp.args
        facts = [(hi.body - c.body, POS_), (c.body - lo.body, POS_), (hi.body - lo.body, POS_)]
        go(S, "given centre", [KeyVal(("ran_key",))], {"wave_range": (lo, hi), "scale": sc, "tcurve_center": c}, lambda v: (lo, hi, sc, c), inp, facts)

    return [Unit("random-filter:drawn", drawn, n), Unit("random-filter:given", given, n)]


# ------------------------------------------------------------------ emission-line names

EM = L + "load_emline_info."
RF = L + "retrieve_fsps_data."


def L05_units():
    def reader(S):
        n = EM + "read_emlines_info_fsps"
        where = S.loc_of(n)
        rows = table_rows(S)
        fv = S.resolve(n)
        p = Op("join", Op("ROOT"), "dsps", "data", "emlines_info.dat")
        want = {nm: w for w, nm in rows}
        if len(want) != len(rows):
            S.fail("unique-names", "emlines_info.dat", "dsps/data/emlines_info.dat:1", "two lines share a name")
            return
        for o in run_one(S, lambda: World(S.root), lambda w: S.I.call(fv, [p], {}), "table", n, where):
            S.check_eq("table", n, o[3]["result"], want, where)
        for o in run_one(S, lambda: World(S.root), lambda w: S.I.call(fv, [p], {"testmode": True}), "table", n + "(testmode)", where):
            v = o[3]["result"]
            if not isinstance(v, tuple) or len(v) != 2:
                S.fail("table", n + "(testmode)", where, "result is not a pair")
                continue
            ws = v[1].items if isinstance(v[1], CVec) else [M.asarr(x).body.const() for x in M.iterate(S.I, v[1])]
            S.check_eq("table", n + "(testmode)", v[0], want, where)
            if list(ws) == [w for w, _ in rows]:
                S.ok("table", n + "(testmode) wavelengths")
            else:
                S.fail("table", n + "(testmode) wavelengths", where, "the wavelength array is not the table's, in order")

    def naming(S):
        n = RF + "retrieve_ssp_data_from_fsps"
        where = S.loc_of(RF + "_get_emline_wave_namedtuple") or S.loc_of(n)
        rows = table_rows(S)
        rows = rows[::-1]
        fv = S.resolve(n)
        for o in run_one(S, fsps_world(S, rows), lambda w: S.I.call(fv, [], {}), "naming", "all lines", where):
            v = o[3]["result"]
            S.check_eq("naming", "names and wavelengths of all %d lines" % len(rows), v.get("ssp_emline_wave"),
                       emnt(S, [b for _, b in rows], [a for a, _ in rows]), where)

    return [Unit("line-table", reader, EM + "read_emlines_info_fsps"), Unit("line-naming", naming, RETR)]


def E02_units():
    n = EM + "get_subset_emline_data"

    def mk_unit(sub):
        def f(S):
            where = S.loc_of(n)
            fv = S.resolve(n)
            names = ["Ha", "Hb", "OIII", "C_IV"]
            d = dataset(names)
            full = expected_read(S, d, names)
            for o in run_one(S, lambda: World(S.root), lambda w: S.I.call(fv, [full, list(sub)], {}), "subset", "subset %s" % (list(sub),), where):
                ix = [names.index(x) for x in sub]
                lum = full.get("ssp_emline_luminosity")
                w2 = NTInst(full.cls, list(full.vals))
                items = [M.take(lum, 2, num(k)) for k in ix]
                w2.vals[full.cls.fields.index("ssp_emline_luminosity")] = M.from_items(items, axis=2)
                w2.vals[full.cls.fields.index("ssp_emline_wave")] = emnt(S, sub, [full.get("ssp_emline_wave").vals[k] for k in ix])
                S.check_eq("subset", "subset %s" % (list(sub),), o[3]["result"], w2, where)
        return Unit("subset:" + ",".join(sub), f, n)

    names = ["Ha", "Hb", "OIII", "C_IV"]
    out = []
    for k in (1, 2, 3, 4):
        for p in itertools.permutations(names, k):
            out.append(p)
    keep = [p for i, p in enumerate(out) if len(p) <= 2 or i % 5 == 0]
    return [mk_unit(p) for p in keep]


# ------------------------------------------------------------------ synthetic data

FAKE = L + "retrieve_fake_fsps_data."


def L04_units():
    def f(S):
        n = FAKE + "load_fake_ssp_data"
        where = S.loc_of(n)
        fv = S.resolve(n)
        tabs = {"ssp_plaw_data_c0.txt": (num(22), num(94)), "ssp_plaw_data_c1.txt": (num(22), num(94))}
        tabs = {k: (T.dim("t_met", 2), T.dim("t_age", 2)) for k in tabs}
        for o in run_one(S, lambda: World(S.root, tables=tabs), lambda w: S.I.call(fv, [0], {}), "fake", n, where):
            v = o[3]["result"]
            c = lambda k: mk(tabs["ssp_plaw_data_%s.txt" % k], lambda i: fn("table", "ssp_plaw_data_%s.txt" % k, *i), lib="np")
            w, _, _ = S.run("specs.phot.fake_ssp", [c("c0"), c("c1")])
            S.check_eq("fake", "load_fake_ssp_data(n_line=0)", tuple(v.vals), tuple(w) + (None, None), where)

    def g(S):
        n = FAKE + "load_fake_filter_transmission_curves"
        where = S.loc_of(n)
        for o in run_one(S, lambda: World(S.root), lambda w: S.I.call(S.resolve(n), [], {}), "fake", n, where):
            w, _, _ = S.run("specs.phot.fake_filters", [])
            S.check_eq("fake", n, o[3]["result"], w, where)

    return [Unit("fake-ssp", f, FAKE + "load_fake_ssp_data"), Unit("fake-filters", g, FAKE + "load_fake_filter_transmission_curves")]


# ------------------------------------------------------------------ diagnostic figure

FIG = "dsps.metallicity.diagnostics.plot_mzr.make_mzr_comparison_plot"


def style(args, kw):
    """(linestyle, marker, colour) of a drawn line or legend handle"""
    a = list(args)
    fmt = a[2] if len(a) > 2 and isinstance(a[2], str) else ""
    ls = kw.get("linestyle", kw.get("ls"))
    marker = kw.get("marker")
    col = kw.get("color", kw.get("c"))
    if fmt:
        rest = fmt
        for c in ("--", "-.", "-", ":"):
            if c in rest:
                ls = ls or c
                rest = rest.replace(c, "", 1)
                break
        else:
            ls = ls or "None"
        for c in rest:
            if c in "bgrcmykw":
                col = col or c
            else:
                marker = marker or c
    ls = {None: "-", "solid": "-", "dashed": "--", "dotted": ":", "dashdot": "-.", "none": "None", "": "None", " ": "None"}.get(ls, ls)
    col = {"k": "black", "gray": "grey"}.get(col, col) if isinstance(col, str) else col
    return ls, marker, vkey(col)


def text(v):
    return v if isinstance(v, str) else repr(v)


def M03_units():
    def f(S):
        where = S.loc_of(FIG)
        fv = S.resolve(FIG)
        um = "dsps.metallicity.umzr."
        C = S.resolve(um + "MZRParams")
        n = len(C.fields)
        p1 = NTInst(C, [Arr((), sym("p_" + x), "f") for x in C.fields])
        p2 = NTInst(C, [Arr((), sym("q_" + x), "f") for x in C.fields])
        files = ("maiolino_etal18_mzr.dat", "kirby_etal13_mzr.dat", "galazzi_etal05_mzr.dat")
        tabs = {b: (T.dim("rows%d" % i, 2), num(2)) for i, b in enumerate(files)}
        kw = dict(params2=p2, fname=P("fname"), label1=Op("label", 1), label2=Op("label", 2))
        outs = run_one(S, lambda: World(S.root, tables=tabs), lambda w: S.I.call(fv, [p1], dict(kw)), "figure", FIG, where)
        solar = S.resolve(um + "LGMET_SOLAR")
        for w, ans, cs, r in outs:
            curves, data, handles, saved = [], [], [], False
            for e in w.log:
                if e[0] == "axes.plot":
                    a, k = e[1], e[2]
                    y = M.asarr(a[1])
                    here = "%s:%s" % (S.rel(e[3][0]), e[3][1])
                    tb = [x for x in T.atoms_in(y.body) if x.kind == "fn" and x.data[0] == "table"]
                    (data if tb else curves).append((a, k, y, here, tb))
                if e[0].endswith(".legend"):
                    hs = e[2].get("handles", e[1][0] if e[1] else None)
                    if hs is None:
                        for a, k, y, here, tb in curves + data:
                            if "label" in k:
                                handles.append((k["label"], style(a, k), here))
                    else:
                        for h in S.I.iterate(hs):
                            if isinstance(h, HObj) and hasattr(h, "kwargs"):
                                handles.append((h.kwargs.get("label"), style(h.args, h.kwargs), None))
                if e[0].endswith(".savefig"):
                    saved = vkey(e[1][0]) == vkey(P("fname")) if e[1] else False
            if saved:
                S.ok("figure-file", "saved under fname")
            else:
                S.fail("figure-file", "savefig", where, "the figure is not saved under the given name")
            lab = {}
            for l, st, h in handles:
                lab[vkey(l)] = st
            # model curves: which parameter set, at which time
            seen = {1: [], 2: []}
            for a, k, y, here, tb in curves:
                hit = None
                for which, p in ((1, p1), (2, p2)):
                    if all(any(x.kind == "sym" and x.data[0] == nm.body.monos[0][0][0][0].data[0] for x in T.atoms_in(y.body)) for nm in p.vals):
                        hit = which
                if hit is None:
                    S.fail("curve", "model curve", here, "a plotted curve depends on neither parameter set")
                    continue
                seen[hit].append((a, k, y, here))
            for which, p in ((1, p1), (2, p2)):
                if not seen[which]:
                    S.fail("curve", "parameter set %d" % which, where, "no curve is drawn for it")
                st = {style(a, k)[0] for a, k, y, h in seen[which]}
                want = lab.get(vkey(Op("label", which)))
                if want is None:
                    S.fail("legend", "label%d" % which, where, "label%d is not in a legend" % which)
                elif st != {want[0]}:
                    S.fail("legend", "label%d" % which, seen[which][0][3] if seen[which] else where, "curves of parameter set %d are drawn %s but label%d is shown with %s" % (which, sorted(st), which, want[0]))
                else:
                    S.ok("legend", "label%d" % which)
            if {style(a, k)[0] for a, k, y, h in seen[1]} & {style(a, k)[0] for a, k, y, h in seen[2]}:
                S.fail("legend", "styles", where, "the two parameter sets are drawn in the same line style")
            # colours by time
            for which, p in ((1, p1), (2, p2)):
                for (lbl, t) in ((r"${\rm z=3}$", 2), (r"${\rm z=0}$", 14)):
                    want = lab.get(vkey(lbl))
                    if want is None:
                        S.fail("legend", lbl, where, "%s is not in a legend" % lbl)
                        continue
                    got = []
                    for a, k, y, h in seen[which]:
                        x = M.asarr(a[0])
                        m, _, _ = S.run(um + "mzr_model", [x, num_arr(t)] + list(p.vals))
                        if m.body is y.body or S.eq_terms(m.body, y.body) is True:
                            got.append((style(a, k)[2], h))
                    if not got:
                        S.fail("curve", "t=%d Gyr" % t, where, "no curve of parameter set %d at t=%d Gyr" % (which, t))
                    for c, h in got:
                        if c == want[2]:
                            S.ok("legend", "%s set %d" % (lbl, which))
                        else:
                            S.fail("legend", lbl, h, "the curve at t=%d Gyr is drawn in a colour other than the one labelled %s" % (t, lbl))
            # published data
            for b, word in zip(files, ("Maiolino", "Kirby", "Gallazzi")):
                mine = [(a, k, y, h) for a, k, y, h, tb in data if tb[0].data[1][0] == b]
                if not mine:
                    S.fail("data", b, where, "the data set is not drawn")
                    continue
                want = [st for l, st, h in handles if word in text(l)]
                for a, k, y, h in mine:
                    sx, sy = M.asarr(a[0]), y
                    xi = [q for q in T.atoms_in(sx.body) if q.kind == "fn" and q.data[0] == "table"]
                    yi = [q for q in T.atoms_in(sy.body) if q.kind == "fn" and q.data[0] == "table"]
                    okd = (len(xi) == len(yi) == 1 and xi[0].data[1][1] is yi[0].data[1][1] and T.lift(xi[0].data[1][2]).const() == 0
                           and T.lift(yi[0].data[1][2]).const() == 1 and S.eq_terms(sy.body, T.atom_term(yi[0]) + M.asarr(solar).body) is True)
                    if okd:
                        S.ok("data", b)
                    else:
                        S.fail("data", b, h, "plots %s against %s, required column 1 + LGMET_SOLAR against column 0" % (T.show(sy.body), T.show(sx.body)))
                    if want and style(a, k) == want[0]:
                        S.ok("legend", word)
                    else:
                        S.fail("legend", word, h, "drawn as %s, legend shows %s" % (style(a, k)[:2], [q[:2] for q in want]))

    return [Unit("figure", f, FIG)]


def num_arr(k):
    return Arr((), num(k), "f")


# ------------------------------------------------------------------ registrations

DL = "dsps/data_loaders/"
IOK = dict(tech=IO_TECH, note=IO_NOTE, over=["inputs", "configurations"])

Prop("L01", "Loaders read exactly the file their arguments and environment select",
     "An explicit fn supersedes every other argument; otherwise the file is drn/bn, with drn from DSPS_DRN when not given (for filters its filters subdirectory) and bn the documented basename or, for filters, the one file matching bn_pat. "
     "A loader that needs DSPS_DRN raises ValueError when it is unset, and raises, instead of returning data, when the selected file is missing or the pattern matches no file or several. "
     "dummy=True returns the synthetic data without opening a file.",
     "every combination of arguments, environment and directory contents",
     "tests monkeypatch a few of the combinations of arguments and environment",
     [DL + "load_ssp_data.py", DL + "load_filter_data.py", DL + "defaults.py"],
     [("load_ssp_templates", DL + "load_ssp_data.py:load_ssp_templates"), ("load_transmission_curve", DL + "load_filter_data.py:load_transmission_curve")],
     L01_units, 40, **IOK)

Prop("L02", "SSP files round-trip through disk with lines paired and luminosities in cgs",
     "load_ssp_templates returns each dataset under its own name, with emission-line luminosities times 3.828e33 erg/s, each line name with its own wavelength in file order, and both line fields None when the file has none. "
     "Reading what scripts/write_fsps_data_to_disk.py wrote gives back the SSP data retrieved with the options of the command line, with or without emission lines.",
     "every file content and every combination of command-line options",
     "tests read one file and never run the script",
     [DL + "load_ssp_data.py", "scripts/write_fsps_data_to_disk.py"], [("load_ssp_templates", DL + "load_ssp_data.py:load_ssp_templates"), ("writer", "scripts/write_fsps_data_to_disk.py:__main__")],
     L02_units, 80, assume=["files with 0, 1, 3 and 4 emission lines are analysed; the other dimensions are symbolic"], **IOK)

Prop("L03", "Transmission curves outside [0, 1] are rejected, or clipped within tolerance",
     "load_transmission_curve raises ValueError exactly when some transmission is below -0.01 or above 1.01. "
     "Otherwise it returns the stored wavelengths unchanged and the stored transmissions clipped to [0, 1].",
     "every transmission curve of any length",
     "tests load well-formed curves only",
     [DL + "load_filter_data.py"], [("load_transmission_curve", DL + "load_filter_data.py:load_transmission_curve")], L03_units, 3, **IOK)

Prop("L04", "Synthetic SSP and filter data are the documented tabulated models",
     "The synthetic SSP data without lines are the fixed metallicity, age and wavelength grids with, for each metallicity and age, the double power law whose coefficients the package tables hold for that very pair. "
     "The synthetic filters are the fixed sequence of Gaussian curves on their wavelength grids.",
     "every metallicity, age and wavelength index, whatever the coefficient tables hold",
     "tests check shapes only",
     [DL + "retrieve_fake_fsps_data.py"], [("load_fake_ssp_data, load_fake_filter_transmission_curves", DL + "retrieve_fake_fsps_data.py:load_fake_ssp_data")], L04_units, 13, **IOK)

Prop("L05", "Emission-line names are valid, unique and paired with their own wavelength",
     "Reading the package line table gives every line's name (sanitised to a valid identifier) with its wavelength, none lost or merged, in table order. "
     "SSP data retrieved from FSPS name each emission line by the table entry of its own wavelength, in the order of the luminosity columns.",
     "every line of the package table, in any order",
     "tests check a few lines",
     [DL + "load_emline_info.py", DL + "retrieve_fsps_data.py", "dsps/data/emlines_info.dat"],
     [("read_emlines_info_fsps", DL + "load_emline_info.py:read_emlines_info_fsps")], L05_units, 400, **IOK)

Prop("L06", "SSP data retrieved from FSPS carry each table at its own metallicity and age",
     "retrieve_ssp_data_from_fsps evaluates one stellar population per metallicity of the FSPS legend, with the caller's keyword arguments passed on, and returns log10 Z, log10 age in Gyr, wavelengths, and spectra indexed by metallicity, age and wavelength in Lsun/Hz/Msun. "
     "Line luminosities have the same indexing in cgs units where documented, and both line fields are None when FSPS has no lines.",
     "every FSPS table content and keyword arguments",
     "tests need FSPS, which is absent, so they do not run",
     [DL + "retrieve_fsps_data.py"], [("retrieve_ssp_data_from_fsps", DL + "retrieve_fsps_data.py:retrieve_ssp_data_from_fsps")], L06_units, 28,
     assume=["an FSPS legend of three metallicities and four lines is analysed; the other dimensions are symbolic"], **IOK)

Prop("E02", "Emission-line subsets keep the requested order, names and luminosities",
     "get_subset_emline_data returns the SSP data with only the requested lines, in the order requested: name k has its own wavelength and its own luminosity column at every metallicity and age. "
     "Every other field is unchanged.",
     "every luminosity table and ordered choice of lines",
     "tests check one subset in table order",
     [DL + "load_emline_info.py"], [("get_subset_emline_data", DL + "load_emline_info.py:get_subset_emline_data")], E02_units, 180,
     assume=["25 ordered subsets of a table of four lines are analysed"], **IOK)

Prop("F06", "Random filter curves are Gaussians inside the range, fixed by the random key",
     "The curve is a Gaussian of the given width on 200 equally spaced wavelengths of the range, scaled to peak 1 on them, centred at tcurve_center when given. "
     "Otherwise the centre is uniform between two widths above the lower and two below the upper end, from one draw of the given key and nothing else.",
     "every key, wavelength range, width and centre",
     "tests draw a few curves",
     [DL + "load_filter_data.py"], [("load_random_transmission_curve", DL + "load_filter_data.py:load_random_transmission_curve")], F06_units, 6, **IOK)

Prop("M03", "The mass-metallicity figure shows each model and data set as its legend says",
     "Curves of the two parameter sets are drawn in the line styles their own labels have in the legend, in the colours its redshift labels have, and equal mzr_model of their own parameters at that time. "
     "Each published data set is drawn as its mass column against its log metallicity column in absolute units, in the style of its own legend entry, and the figure is saved under fname.",
     "every pair of parameter sets and data table contents",
     "tests do not look at the drawn curves",
     ["dsps/metallicity/diagnostics/plot_mzr.py"], [("make_mzr_comparison_plot", "dsps/metallicity/diagnostics/plot_mzr.py:make_mzr_comparison_plot")], M03_units, 12, **IOK)
