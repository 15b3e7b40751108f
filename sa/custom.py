"""Obligation units that are not a plain function-to-definition congruence."""
from . import terms as T
from .session import Inputs, unnamed
from .sigs import MINS
from .terms import atom_term, atoms_in
from .units import Unit
from .values import Arr, Func, JitWrap, NTClass, NTInst, Op


def arg_names(S, dotted):
    """positional parameter names and the values of the defaulted ones"""
    f = S.resolve(dotted)
    while isinstance(f, JitWrap) or (not hasattr(f, "node") and hasattr(f, "f")):
        f = f.f
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args]


def nt_cong(name, cls, spec, fields, facts=None, out=None, rule="congruence"):
    """f(namedtuple) equals spec(tuple of its fields); the result is the named collection `out`"""

    def fn(S):
        where = S.loc_of(name)
        c = S.resolve(cls)
        if list(c.fields) != [n for n, _ in fields]:
            S.fail("fields", cls, where, "fields %s, required %s" % (list(c.fields), [n for n, _ in fields]))
            return
        inp = Inputs(fields, mins=dict(MINS))
        fs = [(t, m) for t, m in facts({a.src: a.body for a in inp.args})] if facts else []
        from .session import MASKS
        fs = [(t, MASKS[m]) for t, m in fs]
        with inp.assume(fs):
            v, raises, ev = S.run(name, [NTInst(c, list(inp.args))])
            w, _, _ = S.run(spec, [tuple(inp.args)])
        for g, e in raises:
            S.fail("raises", name, where, "raises %s for some documented inputs" % e.exc)
        if out:
            o = S.resolve(out)
            if not isinstance(v, NTInst) or list(v.cls.fields) != list(o.fields):
                S.fail("result-type", name, where, "result is not the named collection %s" % out)
                return
            S.ok("result-type", name)
        S.check_eq(rule, name, unnamed(S.I, v), unnamed(S.I, w), where, inp, fs)

    return Unit("cong:" + name, fn, name)


def roundtrip(f, g, incls, fields, facts=None, label=""):
    """g(f(x)) = x for every x of the declared domain"""

    def fn(S):
        where = S.loc_of(g)
        c = S.resolve(incls)
        inp = Inputs(fields, mins=dict(MINS))
        from .session import MASKS
        fs = [(t, MASKS[m]) for t, m in facts({a.src: a.body for a in inp.args})] if facts else []
        with inp.assume(fs):
            v, r1, _ = S.run(f, [NTInst(c, list(inp.args))])
            if not isinstance(v, NTInst):
                S.fail("round-trip", f, S.loc_of(f), "result is not a named collection")
                return
            w, r2, _ = S.run(g, [v])
        for gd, e in r1 + r2:
            S.fail("raises", g, where, "raises %s for some documented inputs" % e.exc)
        S.check_eq("round-trip", "%s of %s" % (g, f), unnamed(S.I, w), tuple(inp.args), where, inp, fs)

    return Unit("roundtrip:%s∘%s" % (g, f), fn, g)


def find_atoms(t, name):
    return [a for a in atoms_in(t) if a.kind == "fn" and a.data[0] == name]


def inverse_cdf_sampler(name, spec, sig):
    """the draw is spec(u, …) for one uniform u per element, drawn from the given key"""

    def fn(S):
        from .terms import num
        from .values import ONE_T, ax, mk

        where = S.loc_of(name)
        inp = Inputs(sig, mins=dict(MINS))
        with inp.assume():
            v, raises, ev = S.run(name, list(inp.args))
        for gd, e in raises:
            S.fail("raises", name, where, "raises %s for some documented inputs" % e.exc)
        a1 = inp.args[1]
        if not isinstance(v, Arr) or len(v.shape) != 1 or v.shape[0] is not a1.shape[0]:
            S.fail("sampler-shape", name, where, "one draw per element is required")
            return
        S.ok("sampler-shape", name)
        us = find_atoms(v.body, "uniform01")
        other = [a for a in atoms_in(v.body) if a.kind == "fn" and (a.data[0].startswith("rand:") or a.data[0] == "normal01")]
        if len(us) != 1 or other:
            S.fail("sampler-source", name, where, "exactly one uniform number per element is required; found %s" % [T.show_atom(a) for a in us + other][:4])
            return
        u = us[0]
        i = v.axvar(0)
        ia = atom_term(i) if not isinstance(i, T.Term) else i
        idx = u.data[1][1:]
        if len(idx) != 1 or idx[0] is not ia:
            S.fail("sampler-independence", name, where, "the uniform number is not drawn per element: %s" % T.show_atom(u))
            return
        S.ok("sampler-independence", name)
        if "ran_key" not in repr(u.data[1][0]):
            S.fail("sampler-key", name, where, "the draw does not come from the given key: %s" % T.show_atom(u))
            return
        S.ok("sampler-key", name)
        good = False
        nf, nu, no, nd = len(S.fails), len(S.undecided), S.obl, S.done
        # u and 1-u are the same distribution
        for flip in (False, True):
            r = Arr(v.shape, ONE_T - atom_term(u) if flip else atom_term(u), "f")
            with inp.assume():
                w, _, _ = S.run(spec, [r] + list(inp.args[1:]))
            if S.check_eq("inverse-cdf", name, v, w, where, inp):
                good = True
                del S.fails[nf:], S.undecided[nu:]
                break
            if not flip:
                keep = (S.fails[nf:], S.undecided[nu:])
                del S.fails[nf:], S.undecided[nu:]
                S.obl, S.done = no, nd
            else:
                del S.fails[nf:], S.undecided[nu:]
                S.fails += keep[0]
                S.undecided += keep[1]

    return Unit("sampler:" + name, fn, name)


def applied(label, name, mk, spec, mkspec, fields, mins=None, facts=None, rule="applied"):
    """name(*mk(S, inputs)) equals spec(*mkspec(S, inputs)); mk returns (args, kwargs)"""

    def fn(S):
        where = S.loc_of(name)
        m = dict(MINS)
        m.update(mins or {})
        inp = Inputs(fields, mins=m)
        with inp.assume():
            a, k = mk(S, inp.args)
            v, raises, ev = S.run(name, list(a), dict(k))
            w, _, _ = S.run(spec, list(mkspec(S, inp.args)))
        for g, e in raises:
            S.fail("raises", label, where, "raises %s for some documented inputs" % e.exc)
        S.check_eq(rule, label, unnamed(S.I, v), unnamed(S.I, w), where, inp)

    return Unit("applied:" + label, fn, name)


def const_eq(dotted, value, where=None, rule="constant"):
    """a module-level value equals the required one (numbers, tuples, dicts, arrays)"""

    def fn(S):
        from .values import NTInst as N
        v = S.resolve(dotted)
        w = value(S) if callable(value) else value
        loc = S.loc_of(where) if where else dotted

        def norm(x):
            if isinstance(x, N):
                return tuple(norm(y) for y in x.vals)
            if isinstance(x, dict):
                return {str(k): norm(y) for k, y in x.items()}
            if isinstance(x, (tuple, list)):
                return tuple(norm(y) for y in x)
            if isinstance(x, float):
                from fractions import Fraction
                return Fraction(str(x))
            return x

        v, w = norm(v), norm(w)
        if isinstance(v, Arr) and isinstance(w, tuple):
            from .models import getitem
            n = v.shape[0].const() if v.shape else None
            v = tuple(getitem(S.I, v, i) for i in range(int(n))) if n is not None else v
        S.check_eq(rule, dotted, v, w, loc)

    return Unit("const:" + dotted, fn, dotted)
