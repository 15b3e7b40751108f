"""Obligations over the lowered program: symbolic inputs, path merging, congruence."""
import os
import re
import sys
import time

sys.setrecursionlimit(20000)

from . import terms as T
from . import equiv
from .terms import *
from .values import *
from .absint import Interp, PyRaise, Unsupported
from .models import asarr, iterate

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(os.path.dirname(HERE), "specs")
REPO = os.environ.get("DSPS_SA_ROOT", "/repo")

MASKS = {">0": POS, ">=0": NONNEG, "<0": NEG, "<=0": NONPOS, "!=0": NONZERO}


class Anchor(Exception):
    """a named anchor of the property no longer exists / cannot be resolved"""


class Decl:
    """one declared input"""

    def __init__(self, text):
        self.text = text
        m = re.match(r"^(?:\[([^\]]*)\])?\s*(.*)$", text)
        self.shape = None if m.group(1) is None else [s.strip() for s in m.group(1).split(",") if s.strip()]
        self.flags = m.group(2).split()

    def dims(self):
        return self.shape or []


def dim_term(name):
    """'n' -> symbolic length >=2; 'n3' style minimum given as n:3; digits -> constant"""
    if name.isdigit():
        return num(int(name))
    if ":" in name:
        n, lo = name.split(":")
        return T.dim(n, int(lo))
    return T.dim(name, 2)


class Inputs:
    def __init__(self, sigs, mins=None, lib="jnp"):
        """sigs: list of (name, decl)"""
        self.args = []
        self.signs = {}
        self.ranges = {}
        self.names = []
        self.mins = mins or {}
        self.lib = lib
        for name, d in sigs:
            self.names.append(name)
            self.args.append(self.make(name, d))

    def dimt(self, s):
        if s.isdigit():
            return num(int(s))
        return T.dim(s, self.mins.get(s, 2))

    def make(self, name, d):
        if not isinstance(d, str):
            return d(self, name) if callable(d) else d
        d = Decl(d)
        shape = [self.dimt(s) for s in d.dims()]
        for f in d.flags:
            if f in MASKS:
                self.signs[name] = MASKS[f]
            elif f.startswith("in("):
                lo, hi = f[3:-1].split(",")
                lo = None if lo in ("", "-inf") else F(lo)
                hi = None if hi in ("", "inf") else F(hi)
                self.ranges[name] = (lo, hi)
                mask = ANY
                if lo is not None and lo >= 0:
                    mask &= NONNEG
                if hi is not None and hi <= 0:
                    mask &= NONPOS
                if mask != ANY:
                    self.signs[name] = mask
            elif f == "asc":
                self.signs[("asc", name)] = POS
            elif f == "key":
                return KeyVal((name,))
            elif f == "str":
                return Op(name)
        dt = "i" if "int" in d.flags else "f"
        n = len(shape)
        idx = [ZERO_T if s is ONE_T else atom_term(ax(n - 1 - j, s)) for j, s in enumerate(shape)]
        a = Arr(shape, sym(name, *idx), dt, self.lib, src=name)
        return a

    def assume(self, facts=()):
        return assume(signs=self.signs, ranges=self.ranges, facts=facts)


class Session:
    def __init__(self, root=None):
        self.root = root or REPO
        self.I = Interp(self.root, extra=[("specs", SPECS)])
        self.obl = 0
        self.done = 0
        self.fails = []
        self.undecided = []
        self.samples = []
        self.rules = {}
        self.uses = set()
        self.t0 = time.time()

    # ---------------------------------------------------------- resolving

    def resolve(self, dotted):
        """dotted path of a function / value of the analysed program"""
        parts = dotted.split(".")
        for k in range(len(parts), 0, -1):
            m = None
            try:
                m = self.I.load(".".join(parts[:k]))
            except PyRaise as e:
                raise Anchor("importing %s raises %s%r" % (".".join(parts[:k]), e.exc, tuple(map(str, e.eargs))))
            if m is not None:
                v = m
                try:
                    for p in parts[k:]:
                        v = self.I.getattr(v, p)
                except PyRaise:
                    raise Anchor("%s does not exist" % dotted)
                return v
        raise Anchor("%s does not exist" % dotted)

    def loc_of(self, dotted):
        try:
            v = self.resolve(dotted)
        except Exception:
            return None
        while not hasattr(v, "node") and hasattr(v, "f"):
            v = v.f
        if hasattr(v, "node") and getattr(v, "mod", None) is not None and v.node is not None:
            return "%s:%d" % (self.rel(v.mod.path), getattr(v.node, "lineno", 0))
        return None

    def rel(self, p):
        if p and p.startswith(self.root):
            return os.path.relpath(p, self.root)
        return p

    # ---------------------------------------------------------- running

    def run(self, f, args, kwargs=None):
        """all paths of f(*args), merged by guards.  -> (value, raises)"""
        I = self.I
        fv = self.resolve(f) if isinstance(f, str) else f
        res = I.run_paths(lambda: I.call(fv, list(args), dict(kwargs or {})))
        outs, raises = [], []
        for r in res:
            cond = ONE_T
            bad = None
            for c, v in r["path"]:
                if not isinstance(c, Term):
                    bad = c
                    break
                cond = band(cond, c if v else bnot(c))
            if bad is not None:
                raise Unsupported("host-level branch on %r" % (bad,), I.loc)
            if cond is ZERO_T:
                continue
            if "raised" in r:
                raises.append((cond, r["raised"]))
            else:
                outs.append((cond, r["result"]))
        ev = [e for r in res for e in r["events"]]
        self.I.events.extend(ev)
        if not outs:
            if raises:
                raise raises[0][1]
            raise Unsupported("no path returns")
        val = outs[-1][1]
        for c, v in reversed(outs[:-1]):
            val = merge(self.I, c, v, val)
        return val, raises, ev

    # ---------------------------------------------------------- obligations

    def note(self, rule, n=1):
        self.rules[rule] = self.rules.get(rule, 0) + n

    def ok(self, rule, what):
        self.obl += 1
        self.done += 1
        self.note(rule)
        if len(self.samples) < 40:
            self.samples.append("%s: %s" % (rule, what))

    def fail(self, rule, what, where, detail="", key=None):
        self.obl += 1
        self.note(rule)
        self.fails.append(dict(rule=rule, what=what, where=where, detail=detail, key=key or (rule + "|" + what)))

    def undec(self, rule, what, where, why):
        self.obl += 1
        self.note(rule)
        self.undecided.append(dict(rule=rule, what=what, where=where, why=why))

    def check_eq(self, rule, what, got, want, where, inputs=None, facts=(), secs=60):
        """obligation: two abstract values are congruent"""
        g, w = flat(self.I, got), flat(self.I, want)
        if [k for k, _ in g] != [k for k, _ in w]:
            self.fail(rule, what, where, "result structure %s, required %s" % (names(g), names(w)))
            return False
        good = True
        for (k, a), (_, b) in zip(g, w):
            lab = what + k
            if not isinstance(a, Arr) or not isinstance(b, Arr):
                if vkey(a) == vkey(b):
                    self.ok(rule, lab)
                else:
                    good = False
                    self.fail(rule, lab, where, "value %s, required %s" % (srepr(a), srepr(b)))
                continue
            if len(a.shape) != len(b.shape) or any(x is not y for x, y in zip(a.shape, b.shape)):
                good = False
                self.fail(rule, lab, where, "shape (%s), required (%s)" % (shp(a), shp(b)))
                continue
            r = self.eq_terms(a.body, b.body, inputs, facts, secs)
            if r is True:
                self.ok(rule, lab)
            elif r is False:
                good = False
                self.fail(rule, lab, where, self.explain(a.body, b.body))
            else:
                good = False
                self.undec(rule, lab, where, "congruence not decided: " + self.explain(a.body, b.body))
        return good

    def eq_terms(self, a, b, inputs=None, facts=(), secs=60):
        if a is b:
            return True
        if inputs is not None:
            with inputs.assume(facts):
                return equiv.equal(a, b, secs)
        with assume(facts=facts):
            return equiv.equal(a, b, secs)

    def explain(self, a, b):
        d = a - b
        A, B = atoms_in(a), atoms_in(b)
        onlya = [x for x in A if x not in B]
        onlyb = [x for x in B if x not in A]
        lines = []
        for x in sorted(onlya, key=lambda x: (T.atom_term(x).h, len(show_atom(x))))[:4]:
            o = self.I.atom_origin.get(x.key)
            lines.append("code only: %s%s" % (show_atom(x)[:160], " at %s:%d" % (self.rel(o[0]), o[1]) if o else ""))
        for x in sorted(onlyb, key=lambda x: (T.atom_term(x).h, len(show_atom(x))))[:4]:
            lines.append("required only: %s" % show_atom(x)[:160])
        if not lines:
            lines.append("difference: " + show(d, 300))
        return "; ".join(lines) + " || got " + show(a, 220) + " || required " + show(b, 220)


def shp(a):
    return ",".join(map(T.show, a.shape))


def names(g):
    return "{" + ", ".join(k or "value" for k, _ in g) + "}"


def flat(I, v, pre=""):
    if isinstance(v, NTInst):
        out = []
        for f, x in zip(v.cls.fields, v.vals):
            out += flat(I, x, pre + "." + f)
        return out
    if isinstance(v, (tuple, list)):
        out = []
        for i, x in enumerate(v):
            out += flat(I, x, pre + "[%d]" % i)
        return out
    if isinstance(v, dict):
        out = []
        for k, x in v.items():
            out += flat(I, x, pre + "[%r]" % (k,))
        return out
    if isinstance(v, (int, F)) and not isinstance(v, bool):
        v = asarr(v)
    return [(pre, v)]


def unnamed(I, v):
    """namedtuple -> tuple"""
    if isinstance(v, NTInst):
        return tuple(unnamed(I, x) for x in v.vals)
    if isinstance(v, (tuple, list)):
        return tuple(unnamed(I, x) for x in v)
    return v


def merge(I, c, a, b):
    if isinstance(a, NTInst) and isinstance(b, NTInst) and a.cls.name == b.cls.name:
        return NTInst(a.cls, [merge(I, c, x, y) for x, y in zip(a.vals, b.vals)])
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        return type(a)(merge(I, c, x, y) for x, y in zip(a, b))
    if isinstance(a, (Arr, int, F)) and isinstance(b, (Arr, int, F)):
        a, b = asarr(a), asarr(b)
        if len(a.shape) != len(b.shape) or any(x is not y for x, y in zip(a.shape, b.shape)):
            raise Unsupported("paths return different shapes")
        return Arr(a.shape, where(c, a.body, b.body), a.dtype if a.dtype == b.dtype else "f")
    if vkey(a) == vkey(b):
        return a
    raise Unsupported("paths return different kinds of value")
