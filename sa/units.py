"""Obligation units: each is one named piece of a property, run in its own process."""
import os
import pickle
import signal
import sys
import time
import traceback

from . import summ
from . import terms as T
from .absint import PyRaise, Unsupported
from .pairs import PAIRS
from .session import Anchor, Inputs, Session, flat, unnamed
from .sigs import SIGS, make_facts, make_inputs
from .terms import TooBig
from .values import Arr, JitWrap, ShapeError


class Unit:
    def __init__(self, name, fn, where=None, optional=False):
        """optional: an internal anchor, skipped when it no longer exists"""
        self.name, self.fn, self.where, self.optional = name, fn, where, optional


def spec_required(S, spec):
    f = S.resolve(spec)
    while isinstance(f, JitWrap):
        f = f.f
    a = f.node.args
    return len(a.args) - len(a.defaults)


def unwrap(f):
    while isinstance(f, JitWrap):
        f = f.f
    return f


def cong(name, spec=None, lib="jnp", kwargs=True, optional=False, secs=100, sig=None, mins=None, tag="", modular=None):
    """the function's value graph equals its reference definition's, called
    positionally, by keyword and with the defaulted arguments left out"""
    spec = spec or PAIRS[name]
    if modular is None:
        modular = name in MODULAR

    def fn(S):
        where = S.loc_of(name)
        inp = make_inputs(Inputs, name, lib=lib, sig=sig, mins=mins)
        facts = make_facts(inp, name)
        req = spec_required(S, spec)
        what = name + tag

        def variant(rule, args, kw, want):
            with inp.assume(facts):
                try:
                    v, raises, ev = S.run(name, args, kw)
                except PyRaise as e:
                    loc = "%s:%s" % (S.rel(e.loc[0]), e.loc[1]) if e.loc else where
                    if not e.loc or not str(e.loc[0]).startswith(S.root):
                        loc = where
                    S.fail(rule, what, loc, "raises %s%s for documented inputs" % (e.exc, tuple(str(x)[:120] for x in e.eargs)))
                    return None
                except ShapeError as e:
                    S.fail(rule, what, where, "shapes do not conform for documented inputs: %s" % e)
                    return None
            for c, e in raises:
                S.fail(rule, what, where, "raises %s for some documented inputs (when %s)" % (e.exc, T.show(c, 200)))
            S.check_eq(rule, what, unnamed(S.I, v), unnamed(S.I, want), where, inp, facts, secs)
            return v

        if modular:
            return modular_cong(S, name, spec, inp, facts, where, what, req, secs)
        with inp.assume(facts):
            want, _, _ = S.run(spec, inp.args)
        v = variant("congruence", inp.args, {}, want)
        if v is None:
            return
        f = unwrap(S.resolve(name))
        if kwargs and not name.split(".")[-1].startswith("_") and hasattr(f, "node") and len(inp.args) == len(inp.names):
            names = [n for n, _ in (sig or SIGS[name])]
            variant("keyword-call", [], dict(zip(names, inp.args)), want)
        if req < len(inp.args):
            with inp.assume(facts):
                want, _, _ = S.run(spec, inp.args[:req])
            variant("defaults", inp.args[:req], {}, want)

    return Unit("cong:" + name + tag, fn, name, optional)


MODULAR = {
    "dsps.sed.stellar_age_weights.calc_age_weights_from_sfh_table",
    "dsps.sed.metallicity_weights.calc_lgmet_weights_from_lgmet_table",
    "dsps.sed.ssp_weights.calc_ssp_weights_sfh_table_lognormal_mdf",
    "dsps.sed.ssp_weights.calc_ssp_weights_sfh_table_met_table",
    "dsps.sed.stellar_sed.calc_rest_sed_sfh_table_lognormal_mdf",
    "dsps.sed.stellar_sed.calc_rest_sed_sfh_table_met_table",
}


def modular_cong(S, name, spec, inp, facts, where, what, req, secs):
    """composite functions: callees with their own obligations are named by the
    definition they are congruent to; callees named on one side only are inlined"""
    active = [n for n in summ.SUMMARISED if n != name]
    names = inp.names
    forms = [("congruence", inp.args, {}, inp.args)]
    if not name.split(".")[-1].startswith("_"):
        forms.append(("keyword-call", [], dict(zip(names, inp.args)), inp.args))
    if req < len(inp.args):
        forms.append(("defaults", inp.args[:req], {}, inp.args[:req]))
    for rule, args, kw, sargs in forms:
        for attempt in range(6):
            nf, nu, no, nd = len(S.fails), len(S.undecided), S.obl, S.done
            S.I.summaries = summ.table(active)
            S.I.summ_uses = set()
            try:
                with inp.assume(facts):
                    w, _, _ = S.run(spec, sargs)
                    try:
                        v, raises, ev = S.run(name, args, kw)
                    except PyRaise as e:
                        S.fail(rule, what, where, "raises %s%s for documented inputs" % (e.exc, tuple(str(x)[:120] for x in e.eargs)))
                        return
                    except ShapeError as e:
                        S.fail(rule, what, where, "shapes do not conform for documented inputs: %s" % e)
                        return
            finally:
                S.I.summaries = {}
            v, w = unnamed(S.I, v), unnamed(S.I, w)
            A, B = set(), set()
            for acc, x in ((A, v), (B, w)):
                for k, a in flat(S.I, x):
                    if isinstance(a, Arr):
                        acc |= summ.apps_in(a.body)
            good = S.check_eq(rule, what, v, w, where, inp, facts, secs)
            if good:
                S.uses |= S.I.summ_uses
                break
            odd = A ^ B
            drop = [n for n in active if PAIRS[n] in odd]
            if not drop:
                S.uses |= S.I.summ_uses
                break
            active = [n for n in active if n not in drop]
            del S.fails[nf:], S.undecided[nu:]
            S.obl, S.done = no, nd
        for c, e in raises:
            S.fail(rule, what, where, "raises %s for some documented inputs (when %s)" % (e.exc, T.show(c, 200)))


def run_unit(S, u):
    """in the child: -> dict"""
    t = time.time()
    try:
        u.fn(S)
    except Anchor as e:
        if u.optional:
            S.note("internal anchor absent (inlined)")
            S.skipped = getattr(S, "skipped", []) + [u.name]
        else:
            S.undec("anchor", u.name, None, "anchor: %s" % e)
    except (Unsupported,) as e:
        loc = "%s:%s" % (S.rel(e.loc[0]), e.loc[1]) if getattr(e, "loc", None) else None
        S.undec("lowering", u.name, loc, "construct outside the analysed fragment: %s" % e)
    except TooBig as e:
        S.undec("lowering", u.name, None, "term budget exceeded: %s" % e)
    except PyRaise as e:
        loc = "%s:%s" % (S.rel(e.loc[0]), e.loc[1]) if e.loc else S.loc_of(u.where) if u.where else None
        S.fail("raises", u.name, loc, "raises %s%s" % (e.exc, tuple(str(x)[:120] for x in e.eargs)))
    except ShapeError as e:
        S.fail("shape", u.name, S.loc_of(u.where) if u.where else None, "shapes do not conform: %s" % e)
    except RecursionError:
        S.undec("lowering", u.name, None, "recursion limit")
    except MemoryError:
        S.undec("lowering", u.name, None, "memory")
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        S.undec("lowering", u.name, None, "internal: %s %s (%s)" % (
            type(e).__name__, str(e)[:200], traceback.format_exc().strip().splitlines()[-3].strip()))
    return dict(name=u.name, obl=S.obl, done=S.done, fails=S.fails, undecided=S.undecided, samples=S.samples,
                rules=S.rules, functions={q: (S.rel(p), l) for q, (p, l) in S.I.functions.items()},
                calls=len(S.I.calls), uses=sorted(S.uses), skipped=getattr(S, "skipped", []), wall=time.time() - t)


def run_all(units, root=None, jobs=8, limit=300, budget=800, verbose=False):
    """fork one child per unit"""
    base = Session(root)
    start = time.time()
    todo = list(units)
    allu = list(units)
    seen = {u.name for u in units}
    live = {}
    out = []
    import select

    def dead(u, why):
        return dict(name=u.name, obl=1, done=0, fails=[], undecided=[dict(rule="limit", what=u.name, where=None, why=why)],
                    samples=[], rules={}, functions={}, calls=0, uses=[], skipped=[], wall=limit)

    sys.stdout.flush()
    while todo or live:
        while todo and len(live) < jobs:
            u = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    d = run_unit(base, u)
                    b = pickle.dumps(d)
                except BaseException as e:
                    b = pickle.dumps(dead(u, "child: %r" % e))
                with os.fdopen(w, "wb") as f:
                    f.write(b)
                os._exit(0)
            os.close(w)
            live[r] = (u, pid, time.time(), [])
        rd, _, _ = select.select(list(live), [], [], 0.2)
        for r in rd:
            u, pid, t, buf = live[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            data = b"".join(buf)
            d = pickle.loads(data) if data else dead(u, "analysis process ended without a result")
            out.append(d)
            for n in d["uses"]:
                # a summarised callee's own obligation is part of this property
                v = cong(n)
                if v.name not in seen:
                    seen.add(v.name)
                    allu.append(v)
                    todo.append(v)
        now = time.time()
        for r in list(live):
            u, pid, t, buf = live[r]
            if now - t > limit or now - start > budget:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                out.append(dead(u, "time limit"))
        if now - start > budget:
            for u in todo:
                out.append(dead(u, "check budget"))
            todo = []
    order = {u.name: i for i, u in enumerate(allu)}
    out.sort(key=lambda d: order[d["name"]])
    return out
