"""Effects: what the functions do besides returning a value (purity, random keys,
precision, differentiability, import order)."""
from . import terms as T
from .props_io import BNAME, E02_units  # noqa
from .registry import Prop
from .session import Inputs
from .sigs import MINS, SIGS, make_facts, make_inputs
from .terms import atom_term, atoms_in
from .units import Unit
from .values import Arr, Func, JitWrap, KeyVal, NTInst, Op, Partial, VMap

FX_TECH = ("static effect analysis: abstract interpretation of the source with an effect log (in-place writes with aliasing, global and configuration "
           "writes, random-key uses, precision casts, derivative blocks), every logged effect on an analysed path checked against the permitted ones")
FX_NOTE = ("Every analysed function is lowered along all its paths, callees included, and every effect met on the way is logged with its target and source line; "
           "an effect that is not permitted is a violation. Trusts the effect models of numpy, jax and the standard library in sa/models.py.")


def in_import(e):
    return any(s.startswith("<module") for s in e["stack"])


def loc_of(S, e, default):
    l = e.get("loc")
    if l and str(l[0]).startswith(S.root):
        return "%s:%s" % (S.rel(l[0]), l[1])
    return default


def in_repo(S, e):
    l = e.get("loc")
    return bool(l) and str(l[0]).startswith(S.root)


def flatten(v):
    if isinstance(v, NTInst):
        return [y for x in v.vals for y in flatten(x)]
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in flatten(x)]
    if isinstance(v, dict):
        return [y for x in v.values() for y in flatten(x)]
    return [v]


def deps_of(v):
    out = set()
    for x in flatten(v):
        if isinstance(x, Arr):
            out |= set(d for d in x.body.deps if isinstance(d, str) and not d.startswith("!"))
            for s in x.shape:
                pass
        elif isinstance(x, T.Term):
            out |= set(d for d in x.deps if isinstance(d, str) and not d.startswith("!"))
    return out


def public(n):
    return not n.rsplit(".", 1)[1].startswith("_")


# ------------------------------------------------------------------ R01 purity


def tag_state(S):
    """every mutable object reachable from the loaded modules of the package and from default arguments"""
    tags = {}

    def walk(v, name, depth=0):
        if depth > 4 or id(v) in tags:
            return
        if isinstance(v, (dict, list)) or isinstance(v, Arr) and v.lib == "np" and v.ndim:
            tags[id(v)] = name
        if isinstance(v, dict):
            for k, x in v.items():
                walk(x, "%s[%r]" % (name, k), depth + 1)
        elif isinstance(v, (list, tuple)):
            for i, x in enumerate(v):
                walk(x, "%s[%d]" % (name, i), depth + 1)
        elif isinstance(v, NTInst):
            for f, x in zip(v.cls.fields, v.vals):
                walk(x, "%s.%s" % (name, f), depth + 1)
        elif isinstance(v, Func):
            for x in list(v.defaults) + list(v.kwdefaults):
                walk(x, "a default argument of " + v.qual, depth + 1)
            if depth == 0 or v.attrs:
                for k, x in v.attrs.items():
                    walk(x, "%s.%s" % (name, k), depth + 1)
        elif isinstance(v, (Partial, VMap, JitWrap)):
            if hasattr(v, "f"):
                walk(v.f, name, depth + 1)

    for m in list(S.I.modules.values()):
        if m.name.split(".")[0] == "dsps":
            for k, v in list(m.env.items()):
                walk(v, "%s.%s" % (m.name, k))
    return tags


def tag_args(S, v, name):
    if isinstance(v, dict):
        S.I.tags[id(v)] = "argument " + name
        for k, x in v.items():
            tag_args(S, x, "%s[%r]" % (name, k))
    elif isinstance(v, list):
        S.I.tags[id(v)] = "argument " + name
        for i, x in enumerate(v):
            tag_args(S, x, "%s[%d]" % (name, i))
    elif isinstance(v, tuple):
        for i, x in enumerate(v):
            tag_args(S, x, "%s[%d]" % (name, i))
    elif isinstance(v, NTInst):
        for f, x in zip(v.cls.fields, v.vals):
            tag_args(S, x, "%s.%s" % (name, f))
    elif isinstance(v, Arr) and v.lib == "np" and v.ndim:
        S.I.tags[id(v)] = "argument " + name


GLOBAL_RNG = ("numpy.random.", "random.")


def purity_events(S, ev, name, where, rng=True):
    """-> number of forbidden effects reported"""
    n = 0

    def bad(e, what):
        nonlocal n
        n += 1
        S.fail("effect", name, loc_of(S, e, where), what, key="effect|%s|%s" % (name, what[:80]))

    for e in ev:
        if in_import(e):
            continue
        k = e["kind"]
        if k == "inplace" and e.get("lib") == "np":
            bad(e, "writes into the caller's array %s (%s)" % (e["target"], e["how"]))
        elif k == "mutate":
            bad(e, "changes %s (%s)" % (e["target"], e["how"]))
        elif k == "global-write":
            bad(e, "assigns the module-level name %s" % e["name"])
        elif k == "setattr":
            bad(e, "sets attribute %s of %s" % (e["attr"], e["obj"][:80]))
        elif k == "config":
            bad(e, "changes the JAX configuration %s" % (e["key"],))
        elif k == "environ-write":
            bad(e, "changes the process environment")
        elif k == "donate" and deps_of(e["value"]):
            bad(e, "donates the buffer of argument %s" % e["param"])
        elif k in ("ext-call", "host-call") and rng:
            q = e.get("name") or ""
            if q.startswith(GLOBAL_RNG) and not q.startswith(("numpy.random.default_rng", "numpy.random.Generator", "random.Random")):
                bad(e, "uses the global random state (%s)" % q)
            elif q in ("numpy.seterr", "os.chdir", "os.putenv", "os.environ.update", "warnings.simplefilter", "warnings.filterwarnings"):
                bad(e, "changes process-wide state (%s)" % q)
    return n


def pure_unit(name):
    def fn(S):
        where = S.loc_of(name)
        S.resolve(name)
        for lib in ("np", "jnp"):
            inp = make_inputs(Inputs, name, lib=lib)
            S.I.tags = tag_state(S)
            for nm, v in zip(inp.names, inp.args):
                tag_args(S, v, nm)
            with inp.assume(make_facts(inp, name)):
                v, raises, ev = S.run(name, inp.args)
            S.I.tags = {}
            if not purity_events(S, ev, name, where):
                S.ok("effect", "%s with %s arrays: no forbidden effect" % (name, lib))

    return Unit("pure:" + name, fn, name, optional=not public(name))



def worlds(S):
    """calls of the functions that meet the environment: label -> (world, function, args, kwargs, global RNG allowed)"""
    from . import props_io as io
    from .hostworld import World
    from .values import F, Op, mk

    fixed = {"file exists": True}
    names = ["Ha_6563", "C_IV_1548"]
    rows = io.pick(S, True)
    full = lambda: io.expected_read(S, io.dataset(names), names)
    key = KeyVal(("ran_key",))
    return [
        ("no lines", lambda: World(S.root, fixed=fixed, default_file=io.dataset()), io.SSP, [io.P("fn")], {}, False),
        ("lines", lambda: World(S.root, fixed=fixed, default_file=io.dataset(names)), io.SSP, [io.P("fn")], {}, False),
        ("environment", lambda: World(S.root, default_file=io.dataset()), io.SSP, [], {}, False),
        ("explicit file", lambda: World(S.root, fixed=fixed, default_file=io.curve()), io.TCF, [io.P("fn")], {}, False),
        ("pattern", lambda: World(S.root, default_file=io.curve()), io.TCF, [], {"bn_pat": io.P("bn_pat")}, False),
        ("subset", lambda: World(S.root), io.EM + "get_subset_emline_data", lambda: [full(), ["C_IV_1548"]], {}, False),
        ("line table", lambda: World(S.root), io.EM + "read_emlines_info_fsps", [], {}, False),
        ("fsps, lines", io.fsps_world(S, rows), io.RETR, [], {}, False),
        ("fsps, no lines", io.fsps_world(S, None), io.RETR, [], {"sfh": 0}, False),
        ("random filter", lambda: World(S.root), io.L + "load_filter_data.load_random_transmission_curve", [key], {}, False),
        ("random parameters", lambda: World(S.root), "dsps.metallicity.umzr.get_ran_t0_params", [key], {}, False),
    ] + [("filter curves", lambda: World(S.root), "dsps.photometry.utils.interpolate_filter_trans_curves", lambda: curves(), {}, False)]


def curves():
    from .values import mk
    out_w, out_t = [], []
    for k in range(2):
        n = T.dim("n%d" % k, 2)
        out_w.append(mk([n], lambda i, k=k: T.sym("wave%d" % k, *i), lib="np"))
        out_t.append(mk([n], lambda i, k=k: T.sym("trans%d" % k, *i), lib="np"))
        out_w[-1].src, out_t[-1].src = "wave%d" % k, "trans%d" % k
    return [out_w, out_t]


def host_unit(prefix, idx, label, name, judge):
    def fn(S):
        from .hostworld import explore

        where = S.loc_of(name)
        lab, world, nm, args, kwargs, rng = worlds(S)[idx]
        assert nm == name and lab == label
        fv = S.resolve(nm)

        def go(w):
            a = list(args() if callable(args) else args)
            S.I.tags = tag_state(S)
            for i, x in enumerate(a):
                tag_args(S, x, "#%d" % (i + 1))
            return S.I.call(fv, a, dict(kwargs))

        bad = k = 0
        for w, ans, cs, r in explore(S, world, go):
            k += 1
            bad += judge(S, r["events"], name, where)
        S.I.tags = {}
        if not bad:
            S.ok("effect", "%s (%s): no forbidden effect on any of %d paths" % (name, label, k))

    return Unit("%s:%s (%s)" % (prefix, name, label), fn, name)


HOSTS = [
    ("no lines", "dsps.data_loaders.load_ssp_data.load_ssp_templates"), ("lines", "dsps.data_loaders.load_ssp_data.load_ssp_templates"),
    ("environment", "dsps.data_loaders.load_ssp_data.load_ssp_templates"),
    ("explicit file", "dsps.data_loaders.load_filter_data.load_transmission_curve"), ("pattern", "dsps.data_loaders.load_filter_data.load_transmission_curve"),
    ("subset", "dsps.data_loaders.load_emline_info.get_subset_emline_data"), ("line table", "dsps.data_loaders.load_emline_info.read_emlines_info_fsps"),
    ("fsps, lines", "dsps.data_loaders.retrieve_fsps_data.retrieve_ssp_data_from_fsps"),
    ("fsps, no lines", "dsps.data_loaders.retrieve_fsps_data.retrieve_ssp_data_from_fsps"),
    ("random filter", "dsps.data_loaders.load_filter_data.load_random_transmission_curve"),
    ("random parameters", "dsps.metallicity.umzr.get_ran_t0_params"),
    ("filter curves", "dsps.photometry.utils.interpolate_filter_trans_curves"),
]


def loader_purity(S, ev, name, where):
    n = purity_events(S, ev, name, where)
    for e in ev:
        if e["kind"] == "memo-call" and not in_import(e):
            n += 1
            S.fail("effect", name, loc_of(S, e, where), "remembers the result of %s between calls, although it depends on files or the environment, or is shared by every caller" % e["fn"].qual,
                   key="effect|%s|memo" % name)
    return n


def R01_units():
    return [pure_unit(n) for n in SIGS] + [host_unit("pure", i, l, n, loader_purity) for i, (l, n) in enumerate(HOSTS)]


# ------------------------------------------------------------------ R02 random keys


def key_discipline(S, ev, name, where, root="ran_key"):
    seen, bad = {}, 0
    for e in ev:
        if in_import(e):
            continue
        if e["kind"] in ("ext-call", "host-call"):
            q = e.get("name") or ""
            if q.startswith(GLOBAL_RNG):
                bad += 1
                S.fail("key", name, loc_of(S, e, where), "draws from the global random state (%s)" % q)
            continue
        if e["kind"] != "key-use":
            continue
        k = e["key"]
        if not (isinstance(k, tuple) and k and k[0] == root):
            bad += 1
            S.fail("key", name, loc_of(S, e, where), "%s uses a key that does not come from the given one: %s" % (e["how"], str(k)[:80]))
        elif k in seen:
            bad += 1
            S.fail("key", name, loc_of(S, e, where), "a random key is used twice (%s after %s)" % (e["how"], seen[k]), key="key|%s|reuse" % name)
        seen[k] = e["how"]
    if not seen:
        bad += 1
        S.fail("key", name, where, "the given key is not used")
    return bad


def uniform_params(bounds):
    name = "dsps.metallicity.umzr.get_ran_t0_params"

    def fn(S):
        where = S.loc_of(name)
        S.resolve(name)
        args = [KeyVal(("ran_key",))]
        if bounds == "default":
            bd = S.resolve("dsps.metallicity.umzr.MZR_T0_PBDICT")
            inp = Inputs([])
            lims = [tuple(S.I.iterate(v)) for v in bd.values()]
        else:
            inp = Inputs([(a + str(k), "") for k in range(bounds) for a in ("lo", "hi")])
            lims = [(inp.args[2 * k], inp.args[2 * k + 1]) for k in range(bounds)]
            args.append({"p%d" % k: l for k, l in enumerate(lims)})
        what = "%s (%s bounds)" % (name, bounds)
        with inp.assume():
            v, raises, ev = S.run(name, args)
        for g, e in raises:
            S.fail("raises", what, where, "raises %s" % e.exc)
        if not key_discipline(S, ev, name, where):
            S.ok("key", "%s: every key derived from the given one and used once" % what)
        items = list(S.I.iterate(v))
        if len(items) != len(lims):
            S.fail("draw", what, where, "%d draws, required %d" % (len(items), len(lims)))
            return
        used = set()
        from .models import asarr
        for k, (x, (lo, hi)) in enumerate(zip(items, lims)):
            x, lo, hi = asarr(x), asarr(lo), asarr(hi)
            us = [a for a in atoms_in(x.body) if a.kind == "fn" and a.data[0] == "uniform01"]
            if len(us) != 1 or x.ndim or us[0].data[1][1:] or any(a.kind == "fn" and (a.data[0].startswith("rand:") or a.data[0] == "normal01") for a in atoms_in(x.body)):
                S.fail("draw", what, where, "parameter %d is not one uniform number" % k)
                return
            if us[0].key in used:
                S.fail("draw", what, where, "two parameters share one random number")
                return
            used.add(us[0].key)
            u = atom_term(us[0])
            a, b = lo.body + (hi.body - lo.body) * u, hi.body + (lo.body - hi.body) * u
            with inp.assume():
                ok = x.body is a or x.body is b or S.eq_terms(x.body, a) is True
            if ok:
                S.ok("draw", "parameter %d uniform between its own bounds" % k)
            else:
                S.fail("draw", what, where, "parameter %d is %s, required uniform between %s and %s" % (k, T.show(x.body, 120), T.show(lo.body, 40), T.show(hi.body, 40)))

    return Unit("uniform:%s" % bounds, fn, name)


def keyed(name, args, kw=None):
    def fn(S):
        where = S.loc_of(name)
        S.resolve(name)
        inp = Inputs(args, mins=dict(MINS))
        with inp.assume():
            v, raises, ev = S.run(name, inp.args)
        if not key_discipline(S, ev, name, where):
            S.ok("key", "%s: every key derived from the given one and used once" % name)

    return Unit("key:" + name, fn, name)


def R02_units():
    i = [k for k, (l, n) in enumerate(HOSTS) if l == "random filter"][0]
    return [uniform_params("default"), uniform_params(1), uniform_params(2), uniform_params(3), uniform_params(4), keyed("dsps.utils.powerlaw_rvs", SIGS["dsps.utils.powerlaw_rvs"]),
            host_unit("key", i, "random filter", HOSTS[i][1], key_discipline)]


# ------------------------------------------------------------------ R03 double precision from the start

COMPUTE = ("jax.numpy.", "jax.random.", "jax.lax.", "jax.scipy.", "jax.nn.", "jax.device_put", "jax.image.", "jax.ops.")
X64 = "jax_enable_x64"


def package_modules(S):
    import os

    out = []
    top = os.path.join(S.root, "dsps")
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in ("tests", "__pycache__", "data"))
        for f in sorted(fs):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), S.root)[:-3].replace(os.sep, ".")
                out.append(rel[: -len(".__init__")] if rel.endswith(".__init__") else rel)
    return out


def import_unit(mod):
    def fn(S):
        where = "dsps/__init__.py:1"
        S.resolve(mod)
        on, bad, n = False, 0, 0
        for e in S.I.events:
            k = e["kind"]
            if k == "config":
                if e["key"] == X64:
                    if e["val"] is True or e["val"] == 1:
                        on = True
                    else:
                        bad += 1
                        S.fail("x64", mod, loc_of(S, e, where), "double precision is switched off at import")
                elif e["key"] in ("jax_default_dtype_bits", "jax_numpy_dtype_promotion", "jax_numpy_rank_promotion"):
                    bad += 1
                    S.fail("x64", mod, loc_of(S, e, where), "changes the JAX option %s at import" % e["key"])
            elif k == "ext-call" and e["name"].startswith(COMPUTE):
                n += 1
                if not on:
                    bad += 1
                    S.fail("x64", mod, loc_of(S, e, where), "%s is computed before double precision is enabled" % e["name"], key="x64|%s|early" % mod)
                    break
        if not on:
            bad += 1
            S.fail("x64", mod, where, "importing %s does not enable double precision" % mod)
        if not bad:
            S.ok("x64", "importing %s: enabled before each of %d JAX computations" % (mod, n))

    return Unit("import:" + mod, fn)


def R03_units():
    return [import_unit("dsps"), import_unit("dsps.sed"), import_unit("dsps.utils"), import_unit("dsps.photometry"), import_unit("dsps.cosmology.flat_wcdm"),
            import_unit("dsps.metallicity.umzr"), import_unit("dsps.dust.att_curves"), import_unit("dsps.sfh.diffburst"), import_unit("dsps.data_loaders")]


# ------------------------------------------------------------------ R04 precision


def narrowing(S, ev, name, where, imported=False):
    n = 0
    for e in ev:
        if in_import(e) and not imported or not in_repo(S, e):
            continue
        if e["kind"] == "narrow-cast":
            n += 1
            S.fail("precision", name, loc_of(S, e, where), "converts a value to %s" % e["to"], key="precision|%s|cast" % name)
        elif e["kind"] == "narrow-store":
            n += 1
            S.fail("precision", name, loc_of(S, e, where), "stores a %s value in an array of type %s" % (e["value"], e["buffer"]), key="precision|%s|store" % name)
    return n


def typed(sig, dt):
    def conv(d):
        if isinstance(d, tuple) and d[0] == "tuple":
            return ("tuple", [(n, conv(x)) for n, x in d[1]])
        if isinstance(d, str) and "key" not in d.split() and dt:
            return d + " " + dt
        return d

    return [(n, conv(d)) for n, d in sig]


def precision_unit(name):
    def fn(S):
        where = S.loc_of(name)
        S.resolve(name)
        for dt in ("", "int"):
            inp = make_inputs(Inputs, name, sig=typed(SIGS[name], dt))
            with inp.assume(make_facts(inp, name)):
                v, raises, ev = S.run(name, inp.args)
            if not narrowing(S, ev, name, where):
                S.ok("precision", "%s with %s arrays: no narrowing conversion or store" % (name, dt or "float"))

    return Unit("precision:" + name, fn, name, optional=not public(name))


def module_precision():
    def fn(S):
        n = 0
        for m in package_modules(S):
            if m.endswith(("._version",)):
                continue
            S.resolve(m)
            n += 1
        if not narrowing(S, S.I.events, "module-level values", "dsps/__init__.py:1", True):
            S.ok("precision", "module-level values of %d modules: no narrowing" % n)

    return Unit("precision:modules", fn)


def R04_units():
    return [precision_unit(n) for n in SIGS] + [host_unit("precision", i, l, n, narrowing) for i, (l, n) in enumerate(HOSTS) if "fsps" not in l] + [module_precision()]


# ------------------------------------------------------------------ R05 differentiable and traceable

META = ("shape", "ndim", "size", "result_type", "issubdtype", "iscomplexobj", "isscalar", "dtype", "finfo", "iinfo", "can_cast", "promote_types")


def bare(sig):
    """the same inputs with nothing known about their values"""
    def conv(d):
        if isinstance(d, tuple) and d[0] == "tuple":
            return ("tuple", [(n, conv(x)) for n, x in d[1]])
        if isinstance(d, str) and "key" not in d.split():
            return d.split("]")[0] + "]" if d.startswith("[") else ""
        return d

    return [(n, conv(d)) for n, d in sig]


def untraceable(S, ev, name, where, names):
    n = 0

    def bad(e, what):
        nonlocal n
        n += 1
        S.fail("trace", name, loc_of(S, e, where), what, key="trace|%s|%s" % (name, what[:60]))

    for e in ev:
        if in_import(e) or not in_repo(S, e):
            continue
        k = e["kind"]
        if k == "grad-block" and deps_of(e["value"]) & names:
            bad(e, "%s blocks the derivative with respect to %s" % (e["name"], ", ".join(sorted(deps_of(e["value"]) & names))))
        elif k == "truth" and deps_of(e["value"]) & names:
            bad(e, "branches in Python on a value computed from %s" % ", ".join(sorted(deps_of(e["value"]) & names)))
        elif k == "concretize" and deps_of(e["value"]) & names:
            bad(e, "%s needs the concrete value of %s" % (e["how"], ", ".join(sorted(deps_of(e["value"]) & names))))
        elif k == "static-arg" and deps_of(e["value"]) & names:
            bad(e, "argument %s is declared static but depends on %s" % (e["param"], ", ".join(sorted(deps_of(e["value"]) & names))))
        elif k == "while":
            bad(e, "a loop of unknown length is not reverse-mode differentiable")
        elif k == "ext-call":
            q = e["name"]
            if q.startswith(("numpy.", "scipy.", "math.")) and q.split(".")[-1] not in META:
                d = set()
                for a in list(e["args"]) + list(e["kwargs"].values()):
                    d |= deps_of([x for x in flatten(a) if isinstance(x, Arr) and x.lib == "jnp"])
                if d & names:
                    bad(e, "%s is applied to a traced value of %s" % (q, ", ".join(sorted(d & names))))
    return n


def trace_unit(name):
    def fn(S):
        where = S.loc_of(name)
        S.resolve(name)
        inp = make_inputs(Inputs, name, sig=bare(SIGS[name]))
        names = set(d for a in flatten(inp.args) if isinstance(a, Arr) for d in a.body.deps if isinstance(d, str))
        with inp.assume():
            v, raises, ev = S.run(name, inp.args)
        for g, e in raises:
            S.fail("trace", name, where, "raises %s while tracing" % e.exc)
        for e in ev:
            if e["kind"] == "custom-derivative" and deps_of(e["args"]) & names:
                S.undec("trace", name, loc_of(S, e, where), "replaces the derivative of %s by a rule of its own" % e["fn"].qual)
        if not untraceable(S, ev, name, where, names):
            S.ok("trace", "%s: every step from %d inputs traceable and differentiable" % (name, len(names)))

    return Unit("trace:" + name, fn, name, optional=not public(name))


def R05_units():
    skip = ("dsps.utils.powerlaw_rvs",)
    return [trace_unit(n) for n in SIGS if n not in skip]


IN = "dsps/"
Prop("R01", "No public function changes its arguments, package state or JAX settings",
     "Calling any documented function leaves the caller's arrays, lists and dictionaries, default arguments, module-level tables, the JAX configuration, the "
     "environment and the global random state as they were. Results depend only on the arguments, and for loaders on the files and environment "
     "at the time of the call, so repeated calls return the same.",
     "every input, argument type and call history, which a test on single calls cannot cover",
     "Users reuse input arrays and default tables across calls; a hidden write corrupts every later result.",
     ["dsps/utils.py", "dsps/photometry/utils.py", "dsps/data_loaders/load_emline_info.py", "dsps/metallicity/umzr.py"],
     [("interpolate_filter_trans_curves", "dsps/photometry/utils.py:interpolate_filter_trans_curves"), ("load_ssp_templates", "dsps/data_loaders/load_ssp_data.py:load_ssp_templates"),
      ("get_ran_t0_params", "dsps/metallicity/umzr.py:get_ran_t0_params")], R01_units, 100, tech=FX_TECH, note=FX_NOTE)
Prop("R02", "Random draws depend only on the given key, each derived key used once",
     "Random metallicity parameters are one uniform number each between their own bounds, in the order of the bounds; they, power-law draws and random filter "
     "curves take all randomness from the caller's key. No key is consumed twice, so the draws are independent, and the same key repeats them.",
     "every key, number of parameters and bounds; independence is not visible in sampled values",
     "Monte Carlo studies rely on independent, reproducible draws; a reused key correlates parameters silently.",
     ["dsps/metallicity/umzr.py", "dsps/utils.py", "dsps/data_loaders/load_filter_data.py"],
     [("get_ran_t0_params", "dsps/metallicity/umzr.py:get_ran_t0_params"), ("powerlaw_rvs", "dsps/utils.py:powerlaw_rvs"),
      ("load_random_transmission_curve", "dsps/data_loaders/load_filter_data.py:load_random_transmission_curve")], R02_units, 20, tech=FX_TECH, note=FX_NOTE)
Prop("R03", "Importing any part of dsps enables double precision before it computes",
     "Importing dsps, or any of its subpackages first, switches JAX to 64-bit before the first JAX value of the package is computed, and nothing "
     "switches it back, so module-level constants and all results are double precision whatever the import order.",
     "every import order, including a first import of any subpackage",
     "Constants computed in single precision stay single for the whole process and lose nine digits unnoticed.",
     ["dsps/__init__.py", "dsps/sed/__init__.py", "dsps/cosmology/defaults.py"],
     [("x64", "dsps/__init__.py:1"), ("TODAY", "dsps/cosmology/defaults.py:TODAY")], R03_units, 5, tech=FX_TECH, note=FX_NOTE)
Prop("R04", "No step of a calculation narrows values to single precision or to integers",
     "No documented calculation, loader or module-level constant converts values to a type below double precision, and none stores fractional "
     "values in an integer array, whether the inputs are floating-point or integer.",
     "every function, path and input type; a lost digit passes the tolerances of tests",
     "A silently truncated or single-precision intermediate is below test tolerances but ruins derivatives and differences.",
     ["dsps/utils.py", "dsps/sed/stellar_age_weights.py", "dsps/data_loaders/load_ssp_data.py", "dsps/photometry/utils.py"],
     [("_jax_get_dt_array", "dsps/utils.py:_jax_get_dt_array"), ("interpolate_filter_trans_curves", "dsps/photometry/utils.py:interpolate_filter_trans_curves")], R04_units, 100, tech=FX_TECH, note=FX_NOTE)
Prop("R05", "Documented calculations can be traced and differentiated in every argument",
     "Every documented calculation can be run under jit, vmap and grad with any of its arguments traced: no step needs a concrete value of an argument, leaves JAX for "
     "numpy, loops an unknown number of times, or blocks the derivative between argument and result.",
     "every argument of every function; a blocked derivative leaves all values unchanged",
     "DSPS exists to be differentiated; a blocked gradient gives silently wrong fits.",
     ["dsps/utils.py", "dsps/sed/stellar_sed.py", "dsps/photometry/photometry_kernels.py", "dsps/cosmology/flat_wcdm.py", "dsps/dust/att_curves.py"],
     [("calc_rest_sed_sfh_table_met_table", "dsps/sed/stellar_sed.py:calc_rest_sed_sfh_table_met_table"), ("calc_obs_mag", "dsps/photometry/photometry_kernels.py:calc_obs_mag")],
     R05_units, 90, tech=FX_TECH, note=FX_NOTE)


# ------------------------------------------------------------------ R06 names and optional dependencies

EXPORTS = {
    "dsps": [("SSPData", "data_loaders.defaults"), ("load_ssp_templates", "data_loaders.load_ssp_data"),
             ("load_transmission_curve", "data_loaders.load_filter_data"), ("calc_rest_mag", "photometry.photometry_kernels"),
             ("calc_obs_mag", "photometry.photometry_kernels"), ("calc_rest_sed_sfh_table_lognormal_mdf", "sed.stellar_sed"),
             ("calc_rest_sed_sfh_table_met_table", "sed.stellar_sed"), ("calc_ssp_weights_sfh_table_lognormal_mdf", "sed.ssp_weights"),
             ("calc_ssp_weights_sfh_table_met_table", "sed.ssp_weights"), ("calc_age_weights_from_sfh_table", "sed.stellar_age_weights"),
             ("calc_lgmet_weights_from_lognormal_mdf", "sed.metallicity_weights"), ("calc_lgmet_weights_from_lgmet_table", "sed.metallicity_weights"),
             ("cumulative_mstar_formed", "utils")],
    "dsps.sed": [("calc_rest_sed_sfh_table_lognormal_mdf", "sed.stellar_sed"), ("calc_rest_sed_sfh_table_met_table", "sed.stellar_sed"),
                 ("calc_ssp_weights_sfh_table_lognormal_mdf", "sed.ssp_weights"), ("calc_ssp_weights_sfh_table_met_table", "sed.ssp_weights"),
                 ("calc_age_weights_from_sfh_table", "sed.stellar_age_weights"), ("calc_lgmet_weights_from_lognormal_mdf", "sed.metallicity_weights"),
                 ("calc_lgmet_weights_from_lgmet_table", "sed.metallicity_weights")],
    "dsps.photometry": [("calc_rest_mag", "photometry.photometry_kernels"), ("calc_obs_mag", "photometry.photometry_kernels")],
    "dsps.data_loaders": [("SSPData", "data_loaders.defaults"), ("load_ssp_templates", "data_loaders.load_ssp_data"),
                          ("load_transmission_curve", "data_loaders.load_filter_data"), ("load_random_transmission_curve", "data_loaders.load_filter_data"),
                          ("retrieve_ssp_data_from_fsps", "data_loaders.retrieve_fsps_data")],
    "dsps.cosmology": [(n, "cosmology.flat_wcdm") for n in (
        "comoving_distance_to_z", "luminosity_distance_to_z", "distance_modulus_to_z", "angular_diameter_distance_to_z", "lookback_to_z", "age_at_z0",
        "age_at_z", "rho_crit", "virial_dynamical_time", "CosmoParams", "PLANCK15", "WMAP5", "FSPS_COSMO")] + [("DEFAULT_COSMOLOGY", "cosmology.defaults"), ("TODAY", "cosmology.defaults")],
    "dsps.dust": [("blackbody_freq_density", "dust.blackbody"), ("blackbody_wave_density", "dust.blackbody")],
}


def same_thing(a, b):
    if a is b:
        return True
    if isinstance(a, Func) and isinstance(b, Func):
        return a.node is b.node
    from .values import vkey
    try:
        return vkey(a) == vkey(b)
    except Exception:
        return False


def exports_unit(pkg):
    def fn(S):
        where = pkg.replace(".", "/") + "/__init__.py:1"
        S.resolve(pkg)
        for n, home in EXPORTS[pkg]:
            a = S.I.modules[pkg].env.get(n)
            if a is None:
                S.fail("export", "%s.%s" % (pkg, n), where, "the documented name is not there")
                continue
            try:
                b = S.resolve("dsps.%s.%s" % (home, n))
            except Exception:  # noqa: defined elsewhere after a move: judged by the properties of that function
                S.ok("export", "%s.%s" % (pkg, n))
                continue
            if same_thing(a, b):
                S.ok("export", "%s.%s" % (pkg, n))
            else:
                S.fail("export", "%s.%s" % (pkg, n), where, "is not the documented object of dsps.%s" % home)

    return Unit("exports:" + pkg, fn)


def all_unit():
    def fn(S):
        k = 0
        for m in package_modules(S):
            S.resolve(m)
            mod = S.I.modules[m]
            names = mod.env.get("__all__")
            k += 1
            if names is None:
                S.ok("import", m)
                continue
            for n in S.I.iterate(names):
                if n in mod.env:
                    S.ok("all", "%s.%s" % (m, n))
                else:
                    S.fail("all", "%s.%s" % (m, n), S.rel(mod.path) + ":1", "__all__ names something that does not exist: a star import fails")

    return Unit("all", fn)


def without_unit(top, exc, needs=()):
    def fn(S):
        from .absint import PyRaise

        S.I.import_fail = {top: exc}
        for m in package_modules(S):
            try:
                S.I.load(m)
            except PyRaise as e:
                S.fail("optional", "%s without %s" % (m, top), loc_of(S, {"loc": e.loc}, None), "importing it raises %s when importing %s raises %s" % (e.exc, top, exc))
            else:
                S.ok("optional", "%s imports when %s raises %s" % (m, top, exc))
        for f, args in needs:
            fv = S.resolve(f)
            from .hostworld import World, explore
            for w, ans, cs, r in explore(S, lambda: World(S.root), lambda w: S.I.call(fv, list(args), {})):
                if "raised" not in r:
                    S.fail("optional", f, S.loc_of(f), "returns although %s is not available" % top)
                elif r["raised"].exc in ("NameError", "UnboundLocalError"):
                    S.fail("optional", f, loc_of(S, {"loc": r["raised"].loc}, S.loc_of(f)), "raises %s instead of saying that %s is missing" % (r["raised"].exc, top))
                else:
                    S.ok("optional", "%s raises %s without %s" % (f, r["raised"].exc, top))

    return Unit("without:%s (%s)" % (top, exc), fn)


def R06_units():
    return [exports_unit(p) for p in EXPORTS] + [all_unit()] + [
        without_unit("fsps", "ModuleNotFoundError", FSPS_NEEDS), without_unit("fsps", "RuntimeError", FSPS_NEEDS), without_unit("matplotlib", "ModuleNotFoundError", MPL_NEEDS)]


FSPS_NEEDS = (("dsps.data_loaders.retrieve_fsps_data.retrieve_ssp_data_from_fsps", ()),)
MPL_NEEDS = (("dsps.metallicity.diagnostics.plot_mzr.make_mzr_comparison_plot", (Op("params"),)),)
Prop("R06", "Documented names import from their packages; fsps, matplotlib stay optional",
     "Each documented function is available from dsps and its subpackage as the object its module defines, and every name a module exports exists. Every module "
     "imports when python-fsps or matplotlib is missing, or when fsps fails to find its data; only the functions that need them then raise.",
     "every module and every combination of installed optional packages, of which a test environment is one",
     "The package is used mostly without fsps; a hard import there breaks every user whose environment differs from the tested one.",
     ["dsps/__init__.py", "dsps/sed/__init__.py", "dsps/cosmology/__init__.py", "dsps/data_loaders/__init__.py", "dsps/data_loaders/retrieve_fsps_data.py"],
     [("exports", "dsps/__init__.py:1"), ("fsps import", "dsps/data_loaders/retrieve_fsps_data.py:HAS_FSPS")], R06_units, 100, tech=FX_TECH, note=FX_NOTE)
