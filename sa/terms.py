"""Canonical value numbering: hash-consed terms over the reals.

A Term is a finite sum  sum_m c_m * m  with exact rational coefficients c_m,
a monomial m is a product of atoms raised to rational powers.  Two expressions
with the same canonical Term compute the same real function; `eq` (in eq.py)
extends the congruence with denominators, guards and boundary alignment.

Nothing here runs, samples or solves: terms are rewritten to normal form.
"""
import hashlib
import math
from fractions import Fraction as F

NEG, ZERO, POS = 1, 2, 4
NONNEG, NONPOS, NONZERO, ANY = POS | ZERO, NEG | ZERO, NEG | POS, 7


class TooBig(Exception):
    """canonical form exceeds the stated size bound"""


MAX_MONOS = 60000

# ---------------------------------------------------------------- interning

_ATOMS = {}
_TERMS = {}


def _digest(*parts):
    h = hashlib.blake2b(digest_size=10)
    for p in parts:
        if isinstance(p, bytes):
            h.update(b"b" + p)
        else:
            h.update(b"s" + repr(p).encode())
        h.update(b"\0")
    return h.digest()


class Atom:
    __slots__ = ("kind", "data", "key", "deps", "h", "opaque", "skel", "__weakref__")

    def __repr__(self):
        return show_atom(self)


class Term:
    __slots__ = ("monos", "key", "deps", "h", "_d", "opaque", "skel")

    # arithmetic sugar
    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __neg__(self):
        return scale(self, F(-1))

    def __sub__(self, o):
        return add(self, scale(lift(o), F(-1)))

    def __rsub__(self, o):
        return add(lift(o), scale(self, F(-1)))

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, power(lift(o), F(-1)))

    def __rtruediv__(self, o):
        return mul(lift(o), power(self, F(-1)))

    def __pow__(self, c):
        return power(self, F(c))

    def __repr__(self):
        return show(self)

    def is_const(self):
        return not self.monos or (len(self.monos) == 1 and self.monos[0][0] == ())

    def const(self):
        """the rational value, or None"""
        if not self.monos:
            return F(0)
        if len(self.monos) == 1 and self.monos[0][0] == ():
            return self.monos[0][1]
        return None


def lift(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, Atom):
        return atom_term(x)
    return num(x)


class Lam:
    """index -> Term, used as an argument of functional atoms"""

    __slots__ = ("bvar", "size", "body", "key", "skel")

    def __init__(self, bvar, size, body):
        self.bvar, self.size, self.body = bvar, size, body
        self.skel = _digest("lam", size.skel, body.skel)
        self.key = _digest("lam", size.key, body.key)

    def __eq__(self, o):
        return isinstance(o, Lam) and self.key == o.key

    def __hash__(self):
        return hash(self.key)


_MKEY = {}


def _mono_key(m):
    """order of monomials: first a form that ignores how indices are named"""
    k = _MKEY.get(m)
    if k is None:
        k = _MKEY[m] = (tuple(sorted((a.skel, e) for a, e in m)), tuple((a.key, e) for a, e in m))
    return k


def mk_term(d):
    """d: dict mono -> Fraction"""
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) > MAX_MONOS:
        raise TooBig()
    if len(items) > 1:
        items.sort(key=lambda mc: _mono_key(mc[0]))
    k = tuple(items)
    t = _TERMS.get(k)
    if t is None:
        t = Term()
        t.monos = k
        t._d = None
        h = hashlib.blake2b(digest_size=10)
        deps = set()
        ht = 0
        op = False
        idx = False
        for m, c in items:
            h.update(b"|%d/%d" % (c.numerator, c.denominator))
            for a, e in m:
                h.update(a.key)
                h.update(b"^%d/%d" % (e.numerator, e.denominator))
                deps |= a.deps
                ht = max(ht, a.h)
                op = op or a.opaque
                idx = idx or a.skel is not a.key
        t.key = t.skel = h.digest()
        if idx:
            h = hashlib.blake2b(digest_size=10)
            for m, c in items:
                h.update(b"|%d/%d" % (c.numerator, c.denominator))
                for sk, e in _mono_key(m)[0]:
                    h.update(sk)
                    h.update(b"^%d/%d" % (e.numerator, e.denominator))
            t.skel = h.digest()
        t.deps = frozenset(deps)
        t.h = ht
        t.opaque = op
        _TERMS[k] = t
    return t


def _skel_parts(data):
    for x in data:
        if type(x) is tuple:
            yield from _skel_parts(x)
        elif hasattr(x, "skel"):
            yield x.skel
        else:
            yield repr(x)


def _mk_atom(kind, data, deps, h, keyparts, opaque=False):
    k = (kind, data)
    a = _ATOMS.get(k)
    if a is None:
        a = Atom()
        a.kind, a.data, a.deps, a.h, a.opaque = kind, data, frozenset(deps), h, opaque
        a.key = a.skel = _digest(kind, *keyparts)
        if kind == "idx":
            a.skel = b"idx"
        elif any(type(d) is Atom and d.kind == "idx" for d in a.deps):
            a.skel = _digest(kind, *_skel_parts(data))
        if kind in ("idx", "dim"):
            a.deps = a.deps | {a}
        _ATOMS[k] = a
    return a


_NUMS = {}


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        x = F(repr(x))
    t = _NUMS.get(x)
    if t is None:
        x = F(x)
        t = mk_term({(): x})
        _NUMS[x] = t
    return t


ONE_F = F(1)


def atom_term(a):
    return mk_term({((a, ONE_F),): ONE_F})


ZERO_T = num(0)
ONE_T = num(1)

_counter = [0]


def fresh_name(prefix="f"):
    _counter[0] += 1
    return (prefix, _counter[0])


def idx_atom(name, size):
    size = lift(size)
    return _mk_atom("idx", (name, size), size.deps, 0, (name, size.key))


def dim(name, lo=2):
    return atom_term(_mk_atom("dim", (name, lo), (), 0, (name, lo)))


def sym(name, *idxs):
    idxs = tuple(lift(i) for i in idxs)
    deps = {name}
    h = 0
    op = False
    for i in idxs:
        deps |= i.deps
        h = max(h, i.h)
        op = op or i.opaque
    return atom_term(
        _mk_atom("sym", (name, idxs), deps, h, (name,) + tuple(i.key for i in idxs), op)
    )


def _arg_info(args):
    deps, h, keys, op = set(), 0, [], False
    for a in args:
        if isinstance(a, Term):
            deps |= a.deps
            h = max(h, a.h)
            keys.append(a.key)
            op = op or a.opaque
        elif isinstance(a, Lam):
            deps |= (a.body.deps - {a.bvar}) | a.size.deps
            h = max(h, a.body.h + 1)
            keys.append(a.key)
            op = op or a.body.opaque
        else:
            keys.append(a)
    return deps, h, keys, op


def fn_atom(name, *args, opaque=False):
    deps, h, keys, op = _arg_info(args)
    if name == "idiv" or name == "imod":
        deps.add("!flat")
    return _mk_atom("fn", (name, tuple(args)), deps, h, (name, *keys), opaque or op)


def box(t):
    """named intermediate value: kept symbolic while polynomials of it are built"""
    if len(t.monos) < 2 or t.is_const():
        return t
    if len(t.monos) < 4 and not any(
        a.kind == "ind" and a.data[0] == "gt" and int_like(a.data[1]) for m, c in t.monos for a, e in m
    ):
        return t
    if all(len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and m[0][0].data[0] == "ln" for m, c in t.monos):
        return t
    q = _guard_factor(t)
    if q is not None:
        return mul(box(q[0]), q[1])
    k = t.monos[0][1] if t.monos[0][0] != () else t.monos[1][1]
    if k != 1:
        return scale(box(scale(t, 1 / k)), k)
    g = _common(t)
    if g:
        rest = mul(t, mono_term(tuple((a, -e) for a, e in g)))
        if len(rest.monos) == len(t.monos):
            return mul(mono_term(g), box(rest))
    a = _mk_atom("fn", ("box", (t,)), set(t.deps) | {"!box"}, t.h, ("box", t.key), t.opaque)
    return atom_term(a)


def _guard_factor(t):
    """t = q * g with every guard in g and none in q"""
    groups = {}
    for m, c in t.monos:
        g = tuple(ae for ae in m if ae[0].kind == "ind")
        if any(a.data[0] != "gt" or int_like(a.data[1]) for a, _ in g):
            return None
        groups.setdefault(g, {})[tuple(ae for ae in m if ae[0].kind != "ind")] = c
    if len(groups) < 2:
        return None
    (g0, q0), *rest = groups.items()
    m0 = next(iter(q0))
    gs = {g0: F(1)}
    for g, q in rest:
        if len(q) != len(q0) or m0 not in q:
            return None
        k = q[m0] / q0[m0]
        if any(m not in q or q[m] != k * c for m, c in q0.items()):
            return None
        gs[g] = k
    if len(q0) < 2:
        return None
    return mk_term(q0), mk_term(gs)


def _common(t):
    """plain factors shared by every monomial of t"""
    g = None
    for m, c in t.monos:
        d = {a: e for a, e in m if a.kind == "sym" or a.kind == "sum"}
        if g is None:
            g = d
        else:
            g = {a: min(e, d[a]) if e > 0 else max(e, d[a]) for a, e in g.items() if a in d and (d[a] > 0) == (e > 0)}
        if not g:
            return ()
    return tuple(sorted(g.items(), key=lambda ae: ae[0].key))


NO_UNBOX = [0]


def _est(t, lim=2000):
    """estimated number of monomials of unbox(t)"""
    n = 0
    for m, c in t.monos:
        k = 1
        for a, e in m:
            if a.kind == "fn" and a.data[0] == "box":
                k *= _est(a.data[1][0]) ** max(1, int(abs(e)))
                if k > lim:
                    return k
        n += k
        if n > lim:
            break
    return n


def unbox_small(t, lim=120):
    if "!box" not in t.deps or _est(t) > lim:
        return t
    for _ in range(8):
        u = unbox1(t)
        if u is t:
            break
        t = u
    return t


def unbox1(t):
    """open the outermost named values of t"""
    parts = []
    hit = False
    for m, c in t.monos:
        p = None
        keep = []
        for a, e in m:
            if a.kind == "fn" and a.data[0] == "box":
                x = a.data[1][0] if e == 1 else power(a.data[1][0], e)
                p = x if p is None else mul(p, x)
            else:
                keep.append((a, e))
        k = mono_term(tuple(keep), c)
        if p is not None:
            hit = True
            k = mul(k, p)
        parts.append(k)
    return add_many(parts) if hit else t


def unbox(t):
    if "!box" not in t.deps:
        return t
    return _subst(t, {}, {}, {"!box"}, {})


def fn(name, *args, opaque=False):
    return atom_term(fn_atom(name, *args, opaque=opaque))


PI = fn("pi")


def prime_atom(p):
    return _mk_atom("prime", (p,), (), 0, (p,))


# ---------------------------------------------------------------- add / mul


def add(a, b):
    if not a.monos:
        return b
    if not b.monos:
        return a
    d = dict(a.monos)
    for m, c in b.monos:
        v = d.get(m)
        d[m] = c if v is None else v + c
    return mk_term(d)


def add_many(ts):
    d = {}
    for t in ts:
        for m, c in t.monos:
            v = d.get(m)
            d[m] = c if v is None else v + c
    return mk_term(d)


def scale(a, c):
    if c == 1:
        return a
    if c == 0:
        return ZERO_T
    return mk_term({m: v * c for m, v in a.monos})


_MM = {}


def _mul_mono(m1, m2):
    """product of two monomials -> (mono, coeff, extra Term or None) or None for 0"""
    if not m1:
        return m2, ONE_F, None
    if not m2:
        return m1, ONE_F, None
    k = (m1, m2)
    r = _MM.get(k, 0)
    if r != 0:
        return r
    r = _mul_mono0(m1, m2)
    _MM[k] = r
    return r


def _mul_mono0(m1, m2):
    d = {}
    exps = []
    for a, e in m1 + m2:
        if a.kind == "fn" and a.data[0] == "exp":
            exps.append((a, e))
        elif a.kind == "ind":
            d[a] = ONE_F
        else:
            d[a] = d.get(a, F(0)) + e
    coeff = ONE_F
    extra = None
    # guards: [p>0][-p>0] = 0
    inds = [a for a in d if a.kind == "ind"]
    if inds:
        for a in list(d):
            if a.kind == "fn" and a.data[0] == "relu" and d[a] > 0:
                g = _ind_atom(a.data[1][0])
                if g in d:
                    del d[g]
                    inds = [x for x in inds if x is not g]
                o = ind_opposite(g)
                if o is not None and o in d:
                    return None
    if inds and I0_RULE[0]:
        for x in list(d):
            if x.kind == "fn" and x.data[0] == "I0" and d[x] > 0 and any(g in d for g in _outside(x)):
                return None
    if len(inds) > 1:
        s = set(inds)
        for a in inds:
            o = ind_opposite(a)
            if o is not None and o in s:
                return None
        gts = [a for a in inds if a.data[0] == "gt"]
        for i, a in enumerate(gts):
            for b in gts[i + 1 :]:
                if a not in d or b not in d:
                    continue
                p, q = a.data[1], b.data[1]
                if len(p.monos) > 40 or len(q.monos) > 40:
                    continue
                dpq = p - q
                c = dpq.const()
                if c is not None:
                    # p = q + c : the smaller one implies the other
                    del d[a if c > 0 else b]
                    continue
                il = int_like(p) and int_like(q)
                if il or len(dpq.monos) <= 2:
                    s = sign(dpq) if il else _quick_sign(dpq)
                    if not s & NEG:
                        del d[a]
                        continue
                    if not s & POS:
                        del d[b]
                        continue
                spq = p + q
                c = spq.const()
                if c is not None and (c <= 0 or (c <= 1 and il)):
                    return None
                if il:
                    if not sign(spq - 1) & POS:
                        return None
                elif len(spq.monos) <= 2 and not _quick_sign(spq) & POS:
                    return None
                elif len(spq.monos) <= 6 and not _asc_sign(spq) & POS:
                    return None
    if exps:
        if len(exps) == 1 and exps[0][1] == 1:
            d[exps[0][0]] = ONE_F
        else:
            t = exp(add_many([scale(a.data[1][0], e) for a, e in exps]))
            if len(t.monos) == 1:
                em, ec = t.monos[0]
                coeff *= ec
                ok = True
                for a, e in em:
                    if a.kind == "fn" and a.data[0] == "exp":
                        d[a] = e
                    else:
                        d[a] = d.get(a, F(0)) + e
            else:
                extra = t
    out = {}
    for a, e in d.items():
        if e == 0:
            continue
        if a.kind == "prime":
            k = math.floor(e)
            if k:
                coeff *= F(a.data[0]) ** k
                e -= k
                if e == 0:
                    continue
            out[a] = e
        elif a.kind == "poly" and e >= 1:
            k = math.floor(e)
            t = power(a.data[0], F(k))
            extra = t if extra is None else mul(extra, t)
            if e - k:
                out[a] = e - k
        else:
            out[a] = e
    m = tuple(sorted(out.items(), key=lambda ae: ae[0].key))
    return m, coeff, extra


I0_RULE = [0]  # interpolation atoms vanish under the guards of their outside (second attempt of an equality only)
_OUT = {}


def _outside(x):
    """the guards under which an interpolation atom is zero"""
    r = _OUT.get(x)
    if r is None:
        xq, xl = x.data[1][0], x.data[1][1]
        r = []
        for p in (lam_at(xl, ZERO_T) - xq, xq - lam_at(xl, xl.size - 1)):
            g = ind(p)
            if len(g.monos) == 1 and len(g.monos[0][0]) == 1 and g.monos[0][1] == 1:
                r.append(g.monos[0][0][0][0])
        _OUT[x] = r
    return r


def mul(a, b):
    if not a.monos or not b.monos:
        return ZERO_T
    if a is ONE_T:
        return b
    if b is ONE_T:
        return a
    if len(a.monos) == 1 and a.monos[0][0] == ():
        return scale(b, a.monos[0][1])
    if len(b.monos) == 1 and b.monos[0][0] == ():
        return scale(a, b.monos[0][1])
    if len(a.monos) * len(b.monos) > 40 * MAX_MONOS:
        raise TooBig()
    d = {}
    extras = []
    for m1, c1 in a.monos:
        for m2, c2 in b.monos:
            r = _mul_mono(m1, m2)
            if r is None:
                continue
            m, c, ex = r
            if ex is None:
                d[m] = d.get(m, 0) + c * c1 * c2
            else:
                extras.append(mul(mk_term({m: c * c1 * c2}), ex))
    t = mk_term(d)
    if extras:
        t = add_many([t] + extras)
    return t


def mono_term(m, c=ONE_F):
    return mk_term({m: c})


# ---------------------------------------------------------------- assumptions


class Ctx:
    """sign / range assumptions in force (documented preconditions)."""

    def __init__(self):
        self.sym_sign = {}
        self.sym_range = {}
        self.facts = []  # (Term p, mask) : p's sign is within mask
        self.cache = {}

    def key(self):
        return None


CTX = [Ctx()]


def ctx():
    return CTX[-1]


class assume:
    """with assume(x=POS, y=NONNEG) / assume(facts=[(term, POS)])"""

    def __init__(self, signs=None, facts=(), ranges=None):
        self.signs, self.facts, self.ranges = signs or {}, facts, ranges or {}

    def __enter__(self):
        c = Ctx()
        p = ctx()
        c.sym_sign = dict(p.sym_sign)
        c.sym_sign.update(self.signs)
        c.sym_range = dict(p.sym_range)
        c.sym_range.update(self.ranges)
        c.facts = list(p.facts) + list(self.facts)
        CTX.append(c)
        reset_memo()
        return c

    def __exit__(self, *a):
        CTX.pop()
        reset_memo()


_MEMOS = [_OUT]


def memo(f):
    m = {}
    _MEMOS.append(m)

    def w(*args):
        r = m.get(args, m)
        if r is m:
            r = f(*args)
            m[args] = r
        return r

    w.__name__ = f.__name__
    return w


def reset_memo():
    for m in _MEMOS:
        m.clear()
    _MM.clear()


# ---------------------------------------------------------------- sign analysis


def _neg_mask(m):
    return (m & ZERO) | (POS if m & NEG else 0) | (NEG if m & POS else 0)


def _mul_mask(a, b):
    r = 0
    for x in (NEG, ZERO, POS):
        if not a & x:
            continue
        for y in (NEG, ZERO, POS):
            if not b & y:
                continue
            if x == ZERO or y == ZERO:
                r |= ZERO
            elif x == y:
                r |= POS
            else:
                r |= NEG
    return r


def _add_mask(a, b):
    r = 0
    for x in (NEG, ZERO, POS):
        if not a & x:
            continue
        for y in (NEG, ZERO, POS):
            if not b & y:
                continue
            if x == ZERO:
                r |= y
            elif y == ZERO:
                r |= x
            elif x == y:
                r |= x
            else:
                return ANY
    return r


def int_like(t):
    """term is integer valued: integer-coefficient polynomial in idx/dim atoms"""
    for m, c in t.monos:
        if c.denominator != 1:
            return False
        for a, e in m:
            if a.kind not in ("idx", "dim") or e.denominator != 1 or e < 0:
                return False
    return True


def lin_bounds(t, depth=0):
    """(lower, upper) rational bounds of a polynomial in idx/dim atoms linear in idx.
    idx in [0,size-1]; dim >= its declared minimum."""
    lo = _lin_bound(t, False, 0)
    hi = _lin_bound(t, True, 0)
    return lo, hi


def _lin_bound(t, upper, depth):
    if depth > 6:
        return None
    # eliminate idx atoms
    for m, c in t.monos:
        for a, e in m:
            if a.kind == "idx":
                if len(m) != 1 or e != 1:
                    # only linear occurrences handled
                    return None
                take_hi = (c > 0) == upper
                val = a.data[1] - 1 if take_hi else ZERO_T
                rest = t - mono_term(m, c)
                return _lin_bound(rest + scale(val, c), upper, depth + 1)
    r = F(0)
    for m, c in t.monos:
        if m == ():
            r += c
            continue
        if any(a.kind != "dim" or e < 1 or e.denominator != 1 for a, e in m):
            return None
        if (c > 0) == upper:
            return None
        v = F(1)
        for a, e in m:
            v *= F(a.data[1]) ** int(e)
        r += c * v
    return r


@memo
def atom_sign(a):
    k = a.kind
    if k == "sym":
        r = ctx().sym_range.get(a.data[0])
        m = ctx().sym_sign.get(a.data[0], ANY)
        if r:
            lo, hi = r
            if lo is not None and lo >= 0:
                m &= POS if lo > 0 else NONNEG
            if hi is not None and hi <= 0:
                m &= NEG if hi < 0 else NONPOS
        return m or ANY
    if k == "idx":
        return NONNEG
    if k in ("dim", "prime"):
        return POS
    if k == "ind":
        return NONNEG
    if k == "sum":
        bvar, size, body = a.data
        s = sign(body)
        lb = lin_bounds(size)[0] if int_like(size) else None
        if lb is not None and lb >= 1:
            return s
        return s | ZERO
    if k == "red":
        op, bvar, size, body = a.data
        if op in ("max", "min"):
            return sign(body)
        if op in ("all", "any"):
            return NONNEG
        return ANY
    if k == "poly":
        return sign(a.data[0])
    if k == "fn":
        n, args = a.data
        if n == "pi":
            return POS
        if n == "exp":
            return POS
        if n == "ln":
            s = sign(args[0] - 1)
            return s
        if n == "I0":
            return sign(args[2].body) | ZERO
        if n in ("uniform01", "tw", "twp", "relu"):
            return NONNEG
        if n == "box":
            return sign(args[0])
        if n == "abs":
            return NONNEG
        if n == "nonnegfn":
            return NONNEG
    return ANY


@memo
def mono_sign(m):
    r = POS
    for a, e in m:
        s = atom_sign(a)
        if e.denominator != 1:
            s &= NONNEG
            s = s or NONNEG
            if e < 0:
                s = POS
        elif e % 2 == 0:
            s2 = 0
            if s & (NEG | POS):
                s2 |= POS
            if s & ZERO and e > 0:
                s2 |= ZERO
            s = s2
        elif e < 0:
            s = (s & NONZERO) or NONZERO
        r = _mul_mask(r, s)
    return r


def _basic_sign(t):
    if not t.monos:
        return ZERO
    r = None
    for m, c in t.monos:
        s = mono_sign(m) if c > 0 else _neg_mask(mono_sign(m))
        r = s if r is None else _add_mask(r, s)
        if r == ANY:
            break
    return r


ASC_APPS = frozenset()


def _asc_sign(t):
    """sign of a combination of elements of one ascending array whose coefficients sum to zero"""
    if not 2 <= len(t.monos) <= 6:
        return ANY
    name = None
    els = []
    for m, c in t.monos:
        if len(m) != 1 or m[0][1] != 1:
            return ANY
        a = m[0][0]
        if a.kind == "sym":
            nm, idxs = a.data
            if len(idxs) != 1 or ("asc", nm) not in ctx().sym_sign:
                return ANY
            i = idxs[0]
        elif a.kind == "fn" and a.data[0] == "app" and a.data[1][0] in ASC_APPS:
            nm, i = a.data[1][:-1], a.data[1][-1]
        else:
            return ANY
        if name is not None and nm != name:
            return ANY
        name = nm
        els.append([i, c])
    if sum(c for _, c in els) != 0:
        return ANY
    # insertion sort by position (undecided order: give up)
    srt = []
    for i, c in els:
        k = len(srt)
        while k:
            s = sign(srt[k - 1][0] - i)
            if s in (NEG, NONPOS, ZERO):
                break
            if s not in (POS, NONNEG):
                return ANY
            k -= 1
        srt.insert(k, [i, c])
    acc = F(0)
    r = 0
    for k in range(len(srt) - 1):
        acc += srt[k][1]
        if acc:
            r |= NEG if acc > 0 else POS
            if sign(srt[k + 1][0] - srt[k][0]) != POS:
                r |= ZERO
    return r or ZERO


def _quick_sign(t):
    """structural sign, or that of an assumed fact t is a multiple of"""
    r = _basic_sign(t)
    if len(t.monos) == 2:
        for p, mask in ctx().facts:
            if len(p.monos) == 2 and p.monos[0][0] == t.monos[0][0] and p.monos[1][0] == t.monos[1][0]:
                k = t.monos[0][1] / p.monos[0][1]
                if k * p.monos[1][1] == t.monos[1][1]:
                    r &= mask if k > 0 else _neg_mask(mask)
    return r


_sign_depth = [0]


def sign(t):
    if NO_UNBOX[0] and "!box" in t.deps:
        return _sign(t)
    return _msign(t)


def _sign(t):
    r = _basic_sign(t)
    if r in (NEG, ZERO, POS):
        return r
    if t.is_const():
        return r
    if "!box" in t.deps and not NO_UNBOX[0]:
        u = unbox_small(t)
        if u is not t:
            return sign(u)
    if int_like(t):
        lo, hi = lin_bounds(t)
        if lo is not None and lo >= 0:
            r &= NONNEG if lo == 0 else POS
        if hi is not None and hi <= 0:
            r &= NONPOS if hi == 0 else NEG
        if r in (NEG, ZERO, POS):
            return r
    # numeric constant built of ln/pi atoms
    v = const_value(t)
    if v is not None and abs(v) > 1e-12:
        return POS if v > 0 else NEG
    if len(t.monos) == 2:
        r &= _mono_diff(t) or ANY
        if r in (NEG, ZERO, POS):
            return r
    if _sign_depth[0] < 2 and len(t.monos) <= 6:
        r &= _ln_sign(t) or ANY
        if r in (NEG, ZERO, POS):
            return r
    if ctx().facts and _sign_depth[0] < 2:
        r &= _fact_sign(t, ctx().facts) or ANY
        if r in (NEG, ZERO, POS):
            return r
    if "!relu" in t.deps and _sign_depth[0] < 2:
        r &= _relu_sign(t) or ANY
        if r in (NEG, ZERO, POS):
            return r
    if r not in (NEG, POS, ZERO):
        r2 = _iv_mask(interval(t))
        if r & r2:
            r &= r2
    if r not in (NEG, POS, ZERO) and 3 <= len(t.monos) <= 12 and _sign_depth[0] < 2:
        r &= _group_sign(t) or ANY
    if r not in (NEG, POS, ZERO) and len(t.monos) > 1:
        # common positive content does not change the sign
        c, g, base = content(t, positive_only=True)
        if g != () :
            r3 = sign(base)
            if g and r & r3:
                r &= r3
    return r


_SIGN_MEMO = ({}, {}, {})
_MEMOS.extend(_SIGN_MEMO)


def _msign(t):
    """results are kept per nesting depth: a nested query uses fewer facts"""
    d = min(_sign_depth[0], 2)
    for k in range(d + 1):
        r = _SIGN_MEMO[k].get(t)
        if r is not None and (k == d or k < d):
            return r
    r = _sign(t)
    _SIGN_MEMO[0 if r in (NEG, ZERO, POS) else d][t] = r
    return r


def _ln_sign(t):
    """a ln(p) + .. - b ln(q) - ..  against 0 is  p^a .. against q^b .."""
    var = []
    for m, c in t.monos:
        if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "fn" or m[0][0].data[0] != "ln":
            return ANY
        if not m[0][0].data[1][0].is_const():
            var.append(abs(c))
    if not var:
        return ANY
    k = 1 / min(var)
    if any((c * k).denominator != 1 or c * k > 6 for c in var):
        return ANY
    up = mk_term({m: c * k for m, c in t.monos if c > 0})
    lo = mk_term({m: -c * k for m, c in t.monos if c < 0})
    _sign_depth[0] += 1
    try:
        return sign(exp(up) - exp(lo))
    finally:
        _sign_depth[0] -= 1


def _group_sign(t):
    """t = A + a*B for an atom a of known sign: sign(A) + sign(a)*sign(B)"""
    cnt = {}
    for m, c in t.monos:
        for ae in m:
            if ae[0].kind in ("ind", "prime"):
                continue
            cnt[ae] = cnt.get(ae, 0) + 1
    r = ANY
    _sign_depth[0] += 1
    try:
        for ae, k in sorted(cnt.items(), key=lambda x: (-x[1], x[0][0].key)):
            if k < 2 or k == len(t.monos):
                continue
            sa = mono_sign((ae,))
            if sa == ANY:
                continue
            A, B = {}, {}
            for m, c in t.monos:
                if ae in m:
                    B[tuple(x for x in m if x != ae)] = c
                else:
                    A[m] = c
            s = _add_mask(sign(mk_term(A)), _mul_mask(sa, sign(mk_term(B))))
            r &= s
            if r in (NEG, POS, ZERO):
                return r
    finally:
        _sign_depth[0] -= 1
    return r


def _fact_sign(t, facts):
    """sign of t given facts (p, mask), using t = c p + rest"""
    r = ANY
    _sign_depth[0] += 1
    try:
        for p, mask in facts:
            for s in (1, -1):
                q = scale(p, F(s))
                qm = mask if s == 1 else _neg_mask(mask)
                if qm not in (POS, NONNEG):
                    continue
                td = dict(t.monos)
                cands = set()
                for m, c in q.monos:
                    if m in td and td[m] / c != 0:
                        cands.add(td[m] / c)
                for c in cands:
                    rest = t - scale(q, c)
                    rs = _basic_sign(rest)
                    if rs == ANY or rs not in (POS, NEG, ZERO, NONNEG, NONPOS):
                        rs = _iv_mask(interval(rest))
                    if rs not in (POS, NEG, ZERO, NONNEG, NONPOS):
                        rs = sign(rest)
                    r &= _add_mask(qm if c > 0 else _neg_mask(qm), rs) or ANY
                    if r in (NEG, ZERO, POS):
                        return r
    finally:
        _sign_depth[0] -= 1
    return r


def _relu_sign(t):
    """case split on the largest top-level max(p,0)"""
    a = None
    for m, c in t.monos:
        for x, e in m:
            if x.kind == "fn" and x.data[0] == "relu" and e.denominator == 1 and e > 0:
                a = x
                break
        if a is not None:
            break
    if a is None:
        return ANY
    p = a.data[1][0]
    out = 0
    for mask, val in ((POS, p), (NONPOS, ZERO_T)):
        parts = []
        for m, c in t.monos:
            e = dict(m).get(a)
            if e is None:
                parts.append(mono_term(m, c))
            else:
                rest = mono_term(tuple(x for x in m if x[0] is not a), c)
                parts.append(mul(rest, power(val, e)))
        u = add_many(parts)
        _sign_depth[0] += 1
        try:
            s = sign(u)
            if s not in (NEG, ZERO, POS):
                s &= _fact_sign(u, [(p, mask)]) or ANY
        finally:
            _sign_depth[0] -= 1
        out |= s
        if out == ANY:
            break
    return out


MONOTONE = {"tw": NONNEG, "relu": NONNEG, "exp": POS, "tanh": POS, "arcsinh": POS, "arctan": POS, "erf": POS}


def _mono_diff(t):
    """sign of c*g*(f(a) - f(b)) for a non-decreasing f"""
    (m1, c1), (m2, c2) = t.monos
    if c1 != -c2:
        return None
    s1, s2 = set(m1), set(m2)
    o1, o2 = list(s1 - s2), list(s2 - s1)
    if len(o1) != 1 or len(o2) != 1 or o1[0][1] != 1 or o2[0][1] != 1:
        return None
    a, b = o1[0][0], o2[0][0]
    if a.kind != "fn" or b.kind != "fn" or a.data[0] != b.data[0] or a.data[0] not in MONOTONE:
        return None
    s = sign(a.data[1][0] - b.data[1][0])
    if MONOTONE[a.data[0]] == NONNEG:
        s |= ZERO
    r = _mul_mask(s, mono_sign(tuple(sorted(s1 & s2, key=lambda ae: ae[0].key))))
    return r if c1 > 0 else _neg_mask(r)


def _iv_mask(iv):
    lo, hi = iv
    m = ANY
    if lo is not None and lo >= 0:
        m &= POS if lo > 0 else NONNEG
    if hi is not None and hi <= 0:
        m &= NEG if hi < 0 else NONPOS
    return m or ANY


# ---------------------------------------------------------------- intervals


def _iv_mul(a, b):
    def prod(x, y):
        if x == 0 or y == 0:
            return 0
        return x * y

    inf = math.inf
    al, ah = (-inf if a[0] is None else a[0]), (inf if a[1] is None else a[1])
    bl, bh = (-inf if b[0] is None else b[0]), (inf if b[1] is None else b[1])
    ps = []
    for x in (al, ah):
        for y in (bl, bh):
            if x == 0 or y == 0:
                ps.append(F(0))
            elif abs(x) == inf or abs(y) == inf:
                ps.append(inf if (x > 0) == (y > 0) else -inf)
            else:
                ps.append(x * y)
    lo, hi = min(ps), max(ps)
    return (None if lo == -inf else lo, None if hi == inf else hi)


def _iv_pow(a, e):
    if e == 1:
        return a
    lo, hi = a
    if e.denominator == 1 and e > 0:
        k = int(e)
        if k % 2 == 0:
            if lo is not None and lo >= 0:
                return lo**k, None if hi is None else hi**k
            if hi is not None and hi <= 0:
                return hi**k, None if lo is None else lo**k
            if lo is None or hi is None:
                return F(0), None
            return F(0), max(lo**k, hi**k)
        return (None if lo is None else lo**k, None if hi is None else hi**k)
    if e < 0 and e.denominator == 1:
        if lo is not None and lo > 0:
            r = (F(0) if hi is None else 1 / F(hi), 1 / F(lo))
            return _iv_pow(r, -e)
        if lo is not None and lo == 0:
            r = (F(0) if hi is None else 1 / F(hi) if hi else None, None)
            return _iv_pow(r, -e)
        return None, None
    return F(0), None


@memo
def atom_interval(a):
    k = a.kind
    if k == "sym":
        r = ctx().sym_range.get(a.data[0])
        if r:
            return r
        s = atom_sign(a)
        return (F(0) if s in (POS, NONNEG) else None, F(0) if s in (NEG, NONPOS) else None)
    if k == "ind":
        return F(0), F(1)
    if k == "idx":
        hi = lin_bounds(atom_term(a))[1]
        return F(0), hi
    if k == "dim":
        return F(a.data[1]), None
    if k == "prime":
        return F(a.data[0]), F(a.data[0])
    if k == "poly":
        return interval(a.data[0])
    if k == "fn":
        n, args = a.data
        if n == "exp":
            lo, hi = interval(args[0])
            l2, h2 = F(0), None
            if lo is not None and lo >= 0:
                l2 = F(1) if lo == 0 else 1 + F(lo)
            if hi is not None and hi <= 0:
                h2 = F(1)
            return l2, h2
        if n == "pi":
            return F(314159265358979, 10**14), F(314159265358980, 10**14)
        if n in ("uniform01", "tw", "twp"):
            return F(0), F(1)
        if n == "relu":
            hi = interval(args[0])[1]
            return F(0), None if hi is None else max(F(0), hi)
        if n == "box":
            return interval(args[0])
        if n == "ln":
            c = args[0].const()
            if c is not None and c > 0:
                v = F(math.log(c))
                return v - F(1, 10**13), v + F(1, 10**13)
    if k == "red" and a.data[0] in ("all", "any"):
        return F(0), F(1)
    if k == "red":
        return interval(a.data[3])
    s = atom_sign(a)
    return (F(0) if s in (POS, NONNEG) else None, F(0) if s in (NEG, NONPOS) else None)


@memo
def interval(t):
    lo, hi = F(0), F(0)
    for m, c in t.monos:
        iv = (F(1), F(1))
        for a, e in m:
            ai = atom_interval(a)
            if e.denominator != 1 and a.kind == "prime":
                v = F(a.data[0] ** float(e))
                ai = (v * (1 - F(1, 10**13)), v * (1 + F(1, 10**13)))
            else:
                ai = _iv_pow(ai, e)
            iv = _iv_mul(iv, ai)
        if c < 0:
            iv = (iv[1], iv[0])
        lo = None if lo is None or iv[0] is None else lo + c * iv[0]
        hi = None if hi is None or iv[1] is None else hi + c * iv[1]
    if 2 <= len(t.monos) <= 40:
        v = _vertex_interval(t)
        if v is not None:
            lo = v[0] if lo is None or v[0] > lo else lo
            hi = v[1] if hi is None or v[1] < hi else hi
    return lo, hi


def _vertex_interval(t):
    """a polynomial of degree one in each of a few bounded atoms is extreme at a corner"""
    use = {}
    multi = False
    for m, c in t.monos:
        multi = multi or len(m) > 1
        for a, e in m:
            if a in use:
                if use[a] != e:
                    return None
            else:
                if len(use) >= 5:
                    return None
                use[a] = e
    if not multi:
        return None
    box_ = {}
    for a, e in use.items():
        if e.denominator != 1:
            return None
        iv = _iv_pow(atom_interval(a), e)
        if iv[0] is None or iv[1] is None:
            return None
        box_[a] = iv
    names = list(use)
    best = None
    for k in range(1 << len(names)):
        pt = {a: box_[a][(k >> j) & 1] for j, a in enumerate(names)}
        v = F(0)
        for m, c in t.monos:
            x = c
            for a, e in m:
                x *= pt[a]
            v += x
        best = (v, v) if best is None else (min(best[0], v), max(best[1], v))
    return best


# ---------------------------------------------------------------- constants

_SMALL = {}


def factor(n):
    """trial-division factorisation; leftover cofactor kept as one factor"""
    r = _SMALL.get(n)
    if r is not None:
        return r
    f = {}
    m = n
    p = 2
    while p * p <= m and p < 200000:
        while m % p == 0:
            f[p] = f.get(p, 0) + 1
            m //= p
        p += 1 if p == 2 else 2
    if m > 1:
        f[m] = f.get(m, 0) + 1
    _SMALL[n] = f
    return f


def ln_const(c):
    out = []
    for sgn, n in ((1, c.numerator), (-1, c.denominator)):
        for p, e in factor(n).items():
            if p == 5:
                # basis {2, 10, other primes}: ln 5 = ln 10 - ln 2
                out.append(scale(fn("ln", num(10)), F(sgn * e)))
                out.append(scale(fn("ln", num(2)), F(-sgn * e)))
            else:
                out.append(scale(fn("ln", num(p)), F(sgn * e)))
    return add_many(out) if out else ZERO_T


def rat_pow(c, e):
    """c**e for positive rational c"""
    if e.denominator == 1:
        return num(c**int(e))
    d = {}
    coeff = F(1)
    for sgn, n in ((1, c.numerator), (-1, c.denominator)):
        for p, k in factor(n).items():
            d[p] = d.get(p, F(0)) + sgn * k * e
    m = {}
    for p, x in d.items():
        k = math.floor(x)
        coeff *= F(p) ** k
        if x - k:
            m[prime_atom(p)] = x - k
    return mono_term(tuple(sorted(m.items(), key=lambda ae: ae[0].key)), coeff)


@memo
def const_value(t):
    """float value of a term built of constants only, else None"""
    v = 0.0
    for m, c in t.monos:
        try:
            x = float(c)
        except OverflowError:
            return None
        for a, e in m:
            av = _const_atom(a)
            if av is None:
                return None
            try:
                x *= av ** float(e)
            except (ZeroDivisionError, OverflowError, ValueError):
                return None
            if isinstance(x, complex):
                return None
        v += x
    return v


def _const_atom(a):
    if a.kind == "prime":
        return float(a.data[0])
    if a.kind == "poly":
        return const_value(a.data[0])
    if a.kind == "fn":
        n, args = a.data
        if n == "pi":
            return math.pi
        if n in ("ln", "exp") and isinstance(args[0], Term):
            v = const_value(args[0])
            if v is None:
                return None
            try:
                return math.log(v) if n == "ln" else math.exp(v)
            except (ValueError, OverflowError):
                return None
    return None


# ---------------------------------------------------------------- guards (indicators)


def _pos_scale(p):
    """p divided by a positive factor so that equal guards get equal terms"""
    c, g, base = content(p, positive_only=True)
    return base


def ind(p):
    """the {0,1} term [p > 0]"""
    p = lift(p)
    s = sign(p)
    if s == POS:
        return ONE_T
    if not s & POS:
        return ZERO_T
    li = [a for a in inds_of(p)]
    if li:
        return lift_inds(p, ind)
    if int_like(p):
        # orient: leading coefficient positive;  [-q>0] = 1-[q+1>0]
        lead = _lead_coeff_int(p)
        if lead < 0:
            q = -p
            return ONE_T - ind(q + 1)
        g = 0
        for m, c in p.monos:
            if m != ():
                g = math.gcd(g, int(c))
        if g > 1:
            # k*q + c > 0  <=>  q > -c/k  <=>  q + ceil(c/k) > 0 over the integers
            c0 = dict(p.monos).get((), F(0))
            q = scale(p - num(c0), F(1, g))
            return ind(q + num(math.ceil(c0 / g)))
        return atom_term(_ind_atom(p))
    if "!relu" in p.deps:
        r = _ind_range(p)
        if r is None:
            r = _ind_abs(p)
        if r is not None:
            return r
    q = _quad_roots(p)
    if q is not None:
        sgn, up, lo = q
        return ind(up) + ind(lo) if sgn > 0 else mul(ind(-up), ind(-lo))
    p = _pos_scale(p)
    return atom_term(_ind_atom(p))


def _ind_range(p):
    """an index against the size of its own range, when that size is a min or max of sizes"""
    for m, c in p.monos:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "idx" and not int_like(m[0][0].data[1]):
            rest = p - mono_term(m, c)
            if m[0][0] in rest.deps:
                continue
            end = rest + scale(m[0][0].data[1] - 1, c)
            lo, hi = (end, rest) if c < 0 else (rest, end)
            if sign(lo) == POS:
                return ONE_T
            if not sign(hi) & POS:
                return ZERO_T
    return None


def _ind_abs(p):
    """[|q| > c] with c >= 0 is [q > c] + [-q > c]"""
    hit = None
    for m, c in p.monos:
        for a, e in m:
            if a.kind == "fn" and a.data[0] == "relu":
                if e != 1 or hit is not None:
                    return None
                hit = (m, c, a)
    if hit is None:
        return None
    m, c, a = hit
    p0 = p - mono_term(m, c)
    co = tuple(x for x in m if x[0] is not a)
    cs = mono_sign(co)
    if cs == POS and ((c < 0 and sign(p0) == POS) or (c > 0 and not sign(p0) & POS)):
        # r - k max(q,0) > 0 with r > 0 is r - k q > 0; likewise k max(q,0) - r > 0 with r >= 0
        return ind(p0 + scale(mul(mono_term(co), a.data[1][0]), c))
    if cs == POS and len(p0.monos) > 1:
        # the same with max(q,0) = q + max(-q,0)
        kq = scale(mul(mono_term(co), a.data[1][0]), c)
        p1 = p0 + kq
        if len(p1.monos) < len(p0.monos) and ((c < 0 and sign(p1) == POS) or (c > 0 and not sign(p1) & POS)):
            return ind(p0)
    half = scale(mul(mono_term(tuple(x for x in m if x[0] is not a), c), a.data[1][0]), F(1, 2))
    if sign(p0 + half) & POS:
        return None
    return ind(p0 + half + half) + ind(p0)


def _lead_coeff_int(p):
    best = None
    for m, c in p.monos:
        if m == ():
            continue
        k = (0 if any(a.kind == "idx" for a, _ in m) else 1, _mono_key(m))
        if best is None or k < best[0]:
            best = (k, c)
    return best[1]


def _ind_atom(p):
    return _mk_atom("ind", ("gt", p), p.deps, p.h, ("gt", p.key), p.opaque)


def bool_atom(name, *args, opaque=False):
    """{0,1}-valued atom"""
    deps, h, keys, op = _arg_info(args)
    return atom_term(
        _mk_atom("ind", (name,) + tuple(args), deps, h, (name, *keys), opaque or op)
    )


_OPP = {}


def ind_opposite(a):
    if a.data[0] != "gt":
        return None
    r = _OPP.get(a, 0)
    if r == 0:
        p = a.data[1]
        if int_like(p):
            r = None
        else:
            q = -p
            r = _ATOMS.get(("ind", ("gt", q)))
            if r is None:
                r = _ind_atom(q)
        _OPP[a] = r
    return r


def gt(a, b):
    return ind(lift(a) - lift(b))


def lt(a, b):
    return gt(b, a)


def ge(a, b):
    return ONE_T - gt(b, a)


def le(a, b):
    return ONE_T - gt(a, b)


def eqz(p):
    """[p == 0]"""
    p = lift(p)
    s = sign(p)
    if not s & ZERO:
        return ZERO_T
    if s == ZERO:
        return ONE_T
    if inds_of(p):
        return lift_inds(p, eqz)
    if int_like(p):
        # [p>-1]-[p>0]
        return ind(p + 1) - ind(p)
    if s == NONNEG:
        return ONE_T - ind(p)
    if s == NONPOS:
        return ONE_T - ind(-p)
    return ONE_T - ind(p) - ind(-p)


def band(a, b):
    return a * b


def bor(a, b):
    return a + b - a * b


def bnot(a):
    return ONE_T - a


def where(c, a, b):
    if c is ONE_T:
        return a
    if c is ZERO_T:
        return b
    g = _single_gt(c)
    if g is not None:
        p, neg = g
        if neg:
            a, b = b, a
        r = _as_relu(p, a - b)
        if r is not None:
            return b + r
        if neg:
            a, b = b, a
    return b + c * (a - b)


def _single_gt(c):
    """c == [p>0] -> (p, False);  c == 1-[p>0] -> (p, True)"""
    ms = c.monos
    if len(ms) == 1:
        (m, k), neg = ms[0], False
        if k != 1:
            return None
    elif len(ms) == 2 and c.monos[0][0] == () and ms[0][1] == 1 and ms[1][1] == -1:
        m, neg = ms[1][0], True
    elif len(ms) == 2 and ms[1][0] == () and ms[1][1] == 1 and ms[0][1] == -1:
        m, neg = ms[0][0], True
    else:
        return None
    if len(m) != 1 or m[0][0].kind != "ind" or m[0][0].data[0] != "gt":
        return None
    return m[0][0].data[1], neg


def _as_relu(p, d):
    """[p>0]*d as a multiple of relu(p), when d is a multiple of p"""
    if int_like(p) or len(d.monos) != len(p.monos) or not d.monos:
        return None
    if inds_of(d):
        return None
    c1, g1, b1 = content(d, positive_only=True)
    c2, g2, b2 = content(p, positive_only=True)
    k = scale(mul(mono_term(g1), _mono_power(g2, ONE_F, F(-1)) if g2 else ONE_T), c1 / c2)
    if b1 is b2:
        return mul(k, relu(p))
    if b1 is -b2:
        return -mul(k, relu(p))
    return None


def _div_mono(t, m, c):
    out = []
    for m2, c2 in t.monos:
        d = dict(m2)
        for a, e in m:
            d[a] = d.get(a, F(0)) - e
        k = num(c2 / c)
        for a, e in d.items():
            if e:
                k = mul(k, _atom_pow(a, e))
        out.append(k)
    return add_many(out)


def _quad_roots(p):
    """p = A (v - c - w)(v - c + w) with w > 0:  (sign of A, v - c - w, c - w - v)"""
    if not 2 <= len(p.monos) <= 12 or int_like(p):
        return None
    seen = set()
    for m, _ in p.monos:
        for v, e in m:
            if e != 2 or v in seen or v.kind not in ("sym", "fn", "sum", "el"):
                continue
            seen.add(v)
            cs = [{}, {}, {}]
            ok = True
            for m2, c2 in p.monos:
                k = F(0)
                rest = []
                for a, ee in m2:
                    if a is v:
                        k = ee
                    else:
                        rest.append((a, ee))
                        ok &= v not in a.deps if isinstance(a.deps, (set, frozenset)) else True
                if k not in (0, 1, 2) or not ok:
                    ok = False
                    break
                cs[int(k)][tuple(rest)] = c2
            if not ok or len(cs[2]) != 1:
                continue
            C, B, A = (mk_term(x) for x in cs)
            s = mono_sign(A.monos[0][0])
            s = s if A.monos[0][1] > 0 else _neg_mask(s)
            if s not in (POS, NEG):
                continue
            d = mul(B, B) - scale(mul(A, C), F(4))
            if len(d.monos) != 1 or d.monos[0][1] <= 0 or mono_sign(d.monos[0][0]) != POS:
                continue
            root = power(d, F(1, 2))
            if len(root.monos) != 1:
                continue
            c = scale(_div_mono(B, *A.monos[0]), F(-1, 2))
            w = scale(_div_mono(root, *A.monos[0]), F(1, 2) if s == POS else F(-1, 2))
            x = atom_term(v) - c
            return (1 if s == POS else -1), x - w, -x - w
    return None


def relu(p):
    """max(p, 0)"""
    p = lift(p)
    s = sign(p)
    if not s & NEG:
        return p
    if not s & POS:
        return ZERO_T
    if inds_of(p):
        return lift_inds(p, relu)
    q = _quad_roots(p)
    if q is not None:
        sgn, up, lo = q
        inside = ind(up) + ind(lo)
        return mul(p, inside if sgn > 0 else ONE_T - inside)
    c, g, base = content(p, positive_only=True)
    k = mono_term(g, c)
    lead = None
    for m, kk in base.monos:
        if m != ():
            lead = kk
            break
    for m, kk in base.monos:
        if any(a.kind == "fn" and a.data[0] == "relu" for a, _ in m):
            lead = -kk
            break
    if lead is not None and lead < 0:
        return p + mul(k, relu(-base))
    a = _mk_atom("fn", ("relu", (base,)), set(base.deps) | {"!relu"}, base.h, ("relu", base.key), base.opaque)
    return mul(k, atom_term(a))


def unrelu(t):
    """max(p,0) spelled with a guard"""
    if "!relu" not in t.deps:
        return t
    return _subst(t, {}, {}, {"!relu"}, {})


def inds_of(t):
    """guard atoms occurring as factors of t's monomials"""
    s = {}
    for m, c in t.monos:
        for a, e in m:
            if a.kind == "ind":
                s[a] = None
    return sorted(s, key=lambda a: a.key)


def set_ind(t, vals):
    """replace guard factors by constants {atom: 0/1} at the top level of t"""
    d = {}
    on = [a for a, v in vals.items() if v and a.data[0] == "gt"] if I0_RULE[0] else ()
    for m, c in t.monos:
        keep = []
        z = False
        for a, e in m:
            if on and a.kind == "fn" and a.data[0] == "I0" and e > 0 and any(g in on for g in _outside(a)):
                z = True
                break
            if a in vals:
                if not vals[a]:
                    z = True
                    break
            else:
                keep.append((a, e))
        if z:
            continue
        k = tuple(keep)
        d[k] = d.get(k, 0) + c
    return mk_term(d)


def _closure(a, v, li):
    """the guards decided by a = v among index guards"""
    out = {a: v}
    if a.data[0] != "gt":
        return out
    p = a.data[1]
    if not int_like(p):
        return out
    for b in li:
        if b is a or b.data[0] != "gt" or not int_like(b.data[1]):
            continue
        q = b.data[1]
        if v:
            if not sign(q - p) & NEG:
                out[b] = 1
            elif not sign(p + q - 1) & POS:
                out[b] = 0
        else:
            # p <= 0
            if not sign(p - q) & NEG:
                out[b] = 0
            elif not sign(1 - p - q) & POS:
                # p<=0 and q<=0 would give p+q<=0 < 1 <= p+q
                out[b] = 1
    return out


_lift_depth = [0]


def lift_inds(t, f):
    """f(t) with t's guards moved outside:  f(sum of guarded pieces)"""
    li = inds_of(t)
    if not li:
        return f(t)
    _lift_depth[0] += 1
    try:
        if _lift_depth[0] > 14:
            raise TooBig()
        a = next((x for x in li if x.data[0] == "gt" and int_like(x.data[1])), li[0])
        o = ind_opposite(a)
        at = atom_term(a)
        if o is not None and o in li:
            ot = atom_term(o)
            fp = lift_inds(set_ind(t, {a: 1, o: 0}), f)
            fn_ = lift_inds(set_ind(t, {a: 0, o: 1}), f)
            fz = lift_inds(set_ind(t, {a: 0, o: 0}), f)
            return fz + at * (fp - fz) + ot * (fn_ - fz)
        f1 = lift_inds(set_ind(t, _closure(a, 1, li)), f)
        f0 = lift_inds(set_ind(t, _closure(a, 0, li)), f)
        return f0 + at * (f1 - f0)
    finally:
        _lift_depth[0] -= 1


# ---------------------------------------------------------------- content / power


def _exp_split(m):
    """(exp exponent Term, rest mono)"""
    for a, e in m:
        if a.kind == "fn" and a.data[0] == "exp":
            return a.data[1][0], tuple(x for x in m if x[0] is not a)
    return ZERO_T, m


def _term_less(a, b):
    """translation-invariant total order on Terms"""
    d = b - a
    if not d.monos:
        return False
    if len(d.monos) <= 24:
        d = _cleared(d)
        if not d.monos:
            return False
    return d.monos[0][1] > 0


def _cleared(d):
    """d times its polynomial denominators: one form for x/(1+x) and 1 - 1/(1+x)"""
    for _ in range(3):
        worst = {}
        for m, c in d.monos:
            for a, e in m:
                if a.kind == "poly" and e < 0 and e.denominator == 1 and len(a.data[0].monos) <= 4:
                    worst[a] = min(worst.get(a, 0), e)
        if not worst:
            return d
        for a, e in worst.items():
            parts = []
            for m, c in d.monos:
                x = dict(m).get(a, F(0)) - e
                rest = mono_term(tuple(q for q in m if q[0] is not a), c)
                parts.append(mul(rest, _atom_pow(a, x)) if x else rest)
            d = add_many(parts)
    return d


def content(t, positive_only=False):
    """t == c * g * base ; c rational, g monomial (exps may be negative), base Term.
    With positive_only, c > 0 and g > 0 for certain."""
    monos = t.monos
    if not monos:
        return F(1), (), t
    # monomial gcd
    mins = {}
    first = True
    nm = len(monos)
    cnt = {}
    for m, c in monos:
        for a, e in m:
            if a.kind == "fn" and a.data[0] == "exp":
                continue
            if a.kind == "ind":
                continue
            cnt[a] = cnt.get(a, 0) + 1
            if a in mins:
                mins[a] = min(mins[a], e)
            else:
                mins[a] = e
    g = {}
    for a, e in mins.items():
        if cnt[a] < nm:
            e = min(e, F(0))
        if e == 0:
            continue
        if positive_only and mono_sign(((a, e),)) != POS:
            continue
        g[a] = e
    # exp content: translate so that the minimal exponent is zero
    exps = [_exp_split(m)[0] for m, c in monos]
    lo = exps[0]
    for x in exps[1:]:
        if _term_less(x, lo):
            lo = x
    gm = tuple(sorted(g.items(), key=lambda ae: ae[0].key))
    inv = tuple((a, -e) for a, e in gm)
    base = t
    if inv:
        for a, e in inv:
            if a.kind == "poly" and e > 0:
                parts = []
                for m, c in base.monos:
                    x = dict(m).get(a, F(0)) + e
                    rest = mono_term(tuple(q for q in m if q[0] is not a), c)
                    parts.append(mul(rest, _atom_pow(a, x)) if x else rest)
                base = add_many(parts)
            else:
                base = mul(base, mono_term(((a, e),)))
    if lo.monos:
        base = mul(base, exp(-lo))
        ea = fn_atom("exp", lo)
        # exp(lo) may itself simplify; keep as a monomial only when it is one
        et = exp(lo)
        if len(et.monos) == 1 and et.monos[0][1] == 1:
            r = _mul_mono(gm, et.monos[0][0])
            gm2, c2, ex = r
            if c2 == 1 and ex is None:
                gm = gm2
            else:
                base = t if not inv else mul(t, mono_term(inv))
        else:
            base = t if not inv else mul(t, mono_term(inv))
    # numeric content
    if not base.monos:
        return F(1), (), base
    lead = base.monos[0][1]
    if base.monos[0][0] == () and len(base.monos) > 1:
        lead = base.monos[1][1]
    c = abs(lead)
    if not positive_only and lead < 0:
        c = -c
    if c != 1:
        base = scale(base, 1 / c)
    return c, gm, base


_POW = {}


def power(t, e):
    e = F(e)
    if e == 1:
        return t
    if e == 0:
        return ONE_T
    if not t.monos:
        return ZERO_T if e > 0 else fn("inf", opaque=False)
    return _power(t, e)


@memo
def _power(t, e):
    isint = e.denominator == 1
    if isint and e > 0:
        if len(t.monos) == 1:
            m, c = t.monos[0]
            if not any(a.kind in ("ind", "poly") for a, _ in m):
                r = ONE_T
                return _mono_power(m, c, e)
        k = int(e)
        if k > 64:
            raise TooBig()
        r = ONE_T
        b = t
        while k:
            if k & 1:
                r = mul(r, b)
            k >>= 1
            if k:
                b = mul(b, b)
        return r
    li = inds_of(t)
    if li and not (
        isint and len(t.monos) > 1 and sum(a.data[0] != "gt" or not int_like(a.data[1]) for a in li) > 2
    ):
        return lift_inds(t, lambda u: power(u, e))
    if len(t.monos) == 1:
        m, c = t.monos[0]
        return _mono_power(m, c, e)
    if isint:
        c, g, base = content(t)
        r = mono_term(((poly_atom(base), e),), F(1)) if len(base.monos) > 1 else power(base, e)
        r = mul(r, num(c ** int(e)))
        if g:
            r = mul(r, _mono_power(g, F(1), e))
        return r
    c, g, base = content(t, positive_only=True)
    if len(base.monos) == 1:
        r = power(base, e)
    else:
        # even powers leave an absolute value; keep the base as it is
        r = mono_term(((poly_atom(base), e),), F(1))
    r = mul(r, rat_pow(c, e))
    if g:
        r = mul(r, _mono_power(g, F(1), e))
    return r


def poly_atom(base):
    return _mk_atom("poly", (base,), base.deps, base.h, (base.key,), base.opaque)


def _mono_power(m, c, e):
    isint = e.denominator == 1
    out = ONE_T
    stuck = {}
    if c < 0 and not isint:
        # negative base under a fractional power: move the sign into a stuck base
        pass
    for a, x in m:
        if a.kind == "ind":
            out = mul(out, atom_term(a))  # only for e>0 (e<0 lifted before)
        elif a.kind == "fn" and a.data[0] == "exp":
            out = mul(out, exp(scale(a.data[1][0], x * e)))
        elif isint or x.denominator != 1:
            out = mul(out, _atom_pow(a, x * e))
        elif not atom_sign(a) & NEG:
            out = mul(out, _atom_pow(a, x * e))
        else:
            stuck[a] = x
    if isint:
        return mul(out, num(c ** int(e)))
    if len(stuck) == 1 and c > 0:
        # a fractional power is real for a nonnegative base only: an odd power has the sign of its base
        (a, x), = stuck.items()
        if x.denominator == 1 and x.numerator % 2:
            return mul(mul(out, _atom_pow(a, x * e)), rat_pow(c, e))
    if stuck or c < 0:
        sm = tuple(sorted(stuck.items(), key=lambda ae: ae[0].key))
        b = mono_term(sm, F(1) if c > 0 else F(-1))
        out = mul(out, mono_term(((poly_atom(b), e),), F(1)))
        return mul(out, rat_pow(abs(c), e))
    return mul(out, rat_pow(c, e))


def _atom_pow(a, e):
    if e == 0:
        return ONE_T
    if a.kind == "prime":
        return rat_pow(F(a.data[0]), e)
    if a.kind == "poly":
        if e > 0 and e.denominator == 1:
            return power(a.data[0], e)
        k = math.floor(e)
        if e >= 1:
            return mul(power(a.data[0], F(k)), mono_term(((a, e - k),)) if e - k else ONE_T)
    return mono_term(((a, e),))


# ---------------------------------------------------------------- elementary functions


@memo
def _split_den(a):
    """poly atom of a base  c0 + c1*r  (c0, c1 constants, r a monomial) -> (c0, c1, r)"""
    b = a.data[0].monos
    if len(b) != 2:
        return None
    (m0, c0), (m1, c1) = b
    if m1 == ():
        m0, c0, m1, c1 = m1, c1, m0, c0
    if m0 != () or any(e < 0 or e.denominator != 1 for _, e in m1):
        return None
    return c0, c1, dict(m1)


def _remainder(t):
    """r^k (c0 + c1 r)^-1 divided out:  r/(c0 + c1 r) = 1/c1 - c0/c1/(c0 + c1 r)"""
    for _ in range(6):
        hit = None
        for m, c in t.monos:
            for a, e in m:
                if a.kind != "poly" or e >= 0 or e.denominator != 1:
                    continue
                s = _split_den(a)
                if s is None:
                    continue
                d = dict(m)
                if all(d.get(x, F(0)) >= k for x, k in s[2].items()):
                    hit = (m, c, a, s)
                    break
            if hit:
                break
        if not hit:
            return t
        m, c, a, (c0, c1, r) = hit
        d = dict(m)
        for x, k in r.items():
            d[x] -= k
        low = mono_term(tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda ae: ae[0].key)), c)
        d[a] += 1
        up = mono_term(tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda ae: ae[0].key)), c)
        t = add_many([t, mono_term(m, -c), scale(up, 1 / c1), scale(low, -c0 / c1)])
    return t


def exp(t):
    if not t.monos:
        return ONE_T
    if inds_of(t):
        return lift_inds(t, exp)
    if len(t.monos) <= 24:
        t = _remainder(t)
        if not t.monos:
            return ONE_T
    out = ONE_T
    rest = {}
    ln2 = ln10 = F(0)
    for m, c in t.monos:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and m[0][0].data[0] == "ln":
            arg = m[0][0].data[1][0]
            k = arg.const()
            if k == 10:
                ln10 += c
            elif k == 2:
                ln2 += c
            else:
                out = mul(out, power(arg, c))
        else:
            rest[m] = c
    # 10^a 2^b = 2^(a+b) 5^a
    if ln10 or ln2:
        out = mul(out, rat_pow(F(2), ln10 + ln2))
        out = mul(out, rat_pow(F(5), ln10))
    r = mk_term(rest)
    if r.monos:
        out = mul(out, fn("exp", r))
    return out


@memo
def ln(t):
    c = t.const()
    if c is not None:
        if c > 0:
            return ln_const(c)
        return fn("ln", t)
    if inds_of(t):
        return lift_inds(t, ln)
    if len(t.monos) == 1:
        m, c = t.monos[0]
        out = ln_const(abs(c)) if c else ZERO_T
        stuck = {}
        for a, e in m:
            if a.kind == "fn" and a.data[0] == "exp":
                out = out + scale(a.data[1][0], e)
            elif a.kind == "prime":
                out = out + scale(ln_const(F(a.data[0])), e)
            elif mono_sign(((a, e),)) == POS and atom_sign(a) in (POS, NONNEG):
                out = out + scale(_ln_atom(a), e)
            else:
                stuck[a] = e
        if stuck or c < 0:
            if len(stuck) == 1 and c > 0:
                (a, e), = stuck.items()
                if e.denominator == 1 and e % 2 == 1:
                    # ln x^k (k odd) needs x>0 to be real
                    return out + scale(_ln_atom(a), e)
            sm = tuple(sorted(stuck.items(), key=lambda ae: ae[0].key))
            out = out + fn("ln", mono_term(sm, F(1) if c > 0 else F(-1)))
        return out
    c, g, base = content(t, positive_only=True)
    if len(base.monos) == 1:
        r = ln(base)
    else:
        r = fn("ln", base)
    r = r + ln_const(c)
    if g:
        r = r + ln(mono_term(g))
    return r


def _ln_atom(a):
    if a.kind == "poly":
        return ln(a.data[0])
    return fn("ln", atom_term(a))


LN10 = fn("ln", num(10))


def log10(t):
    return ln(t) / LN10


def pow_term(b, e):
    """b ** e for Term exponent"""
    c = e.const()
    if c is not None:
        return power(b, c)
    if inds_of(e):
        return lift_inds(e, lambda u: pow_term(b, u))
    return exp(e * ln(b))


def sigmoid(x):
    return power(ONE_T + exp(-x), F(-1))


def tmax(a, b):
    return b + relu(a - b)


def tmin(a, b):
    return b - relu(b - a)


def tabs(a):
    s = sign(a)
    if not s & NEG:
        return a
    if not s & POS:
        return -a
    return relu(a) * 2 - a


# ---------------------------------------------------------------- binders


def _close(var, body, size):
    """rename idx var to the canonical bound variable of its height"""
    h = body.h + 1
    b = idx_atom(("b", h), size)
    return b, subst(body, {var: atom_term(b)})


def mk_lam(var, size, body):
    size = lift(size)
    b, bd = _close(var, body, size)
    return Lam(b, size, bd)


def lam_at(lam, i):
    return subst(lam.body, {lam.bvar: lift(i)})


def open_lam(lam):
    v = idx_atom(fresh_name("o"), lam.size)
    return v, subst(lam.body, {lam.bvar: atom_term(v)})


def split_factors(m, var):
    """mono -> (index-free mono Term, dependent Term)"""
    free, dep = [], []
    ft, dt = ONE_T, ONE_T
    for a, e in m:
        if var not in a.deps:
            free.append((a, e))
        elif a.kind == "fn" and a.data[0] == "exp":
            t = a.data[1][0]
            f = {mm: c for mm, c in t.monos if not any(var in x.deps for x, _ in mm)}
            if f:
                ff = mk_term(f)
                ft = mul(ft, exp(ff))
                dt = mul(dt, exp(t - ff))
            else:
                dep.append((a, e))
        else:
            dep.append((a, e))
    ft = mul(ft, mono_term(tuple(free)))
    dt = mul(dt, mono_term(tuple(dep)))
    return ft, dt


def _offsets(t, var, acc):
    """collect index expressions containing var in sym/lin/sum-bound positions"""
    seen = set()

    def go(t):
        if var not in t.deps or t.key in seen:
            return
        seen.add(t.key)
        for m, c in t.monos:
            for a, e in m:
                if var not in a.deps:
                    continue
                if a.kind == "sym":
                    for i in a.data[1]:
                        if var in i.deps:
                            acc.append(i)
                elif a.kind == "fn":
                    for x in a.data[1]:
                        if isinstance(x, Term):
                            go(x)
                        elif isinstance(x, Lam):
                            go(x.body)
                elif a.kind == "poly":
                    go(a.data[0])
                elif a.kind == "sum":
                    if var in a.data[1].deps:
                        acc.append(a.data[1])
                    go(a.data[2])
                elif a.kind == "red":
                    go(a.data[3])
                elif a.kind == "ind":
                    for x in a.data[1:]:
                        if isinstance(x, Term):
                            go(x)
                        elif isinstance(x, Lam):
                            go(x.body)

    go(t)


UNROLL = 6


def mk_sum(var, size, body):
    body = unbox_small(body)
    """sum_{var=0}^{size-1} body, canonical"""
    size = lift(size)
    if not body.monos:
        return ZERO_T
    if var not in body.deps:
        return size * body
    n = size.const()
    if n is not None and n <= UNROLL:
        return add_many([subst(body, {var: num(k)}) for k in range(int(n))])
    if len(size.monos) == 1 and "!flat" in body.deps:
        # a flattened index: one sum per original axis
        s2 = _flat_split(var, body)
        if s2 is not None:
            s1 = mul(size, power(s2, F(-1)))
            if int_like(s1):
                u, w = idx_atom(fresh_name("fu"), s1), idx_atom(fresh_name("fw"), s2)
                ut, wt = atom_term(u), atom_term(w)
                return mk_sum(u, s1, mk_sum(w, s2, subst(body, {var: ut * s2 + wt})))
    out = []
    for m, c in body.monos:
        ft, dt = split_factors(m, var)
        for dm, dc in dt.monos:
            out.append(scale(mul(ft, _sum_mono(var, size, dm)), c * dc))
    return add_many(out)


@memo
def _sum_mono(var, size, m):
    if not any(var in a.deps for a, _ in m):
        return mul(size, mono_term(m))
    # index guards -> range splitting
    for a, e in m:
        if a.kind == "ind" and a.data[0] == "gt" and var in a.deps and int_like(a.data[1]):
            p = a.data[1]
            r = _lin_in(p, var)
            if r is None:
                continue
            k, q = r  # p = k*var + q
            rest = mono_term(tuple(x for x in m if x[0] is not a))
            if k == 1:
                # var > -q  : var >= 1-q
                cut = ONE_T - q
                lo, _ = lin_bounds(cut)
                lo2, _ = lin_bounds(size - cut)
                if lo is not None and lo >= 0 and lo2 is not None and lo2 >= 0:
                    return mk_sum(var, size, rest) - mk_sum(var, cut, _resize(rest, var, cut))
                if lo is not None and lo >= 1 and lo2 == -1:
                    # the guarded range may be empty: its first element exists only when size >= cut
                    cut1 = cut - 1
                    head = mk_sum(var, cut1, _resize(rest, var, cut1)) + mul(
                        ind(size - cut1), subst(rest, {var: cut1})
                    )
                    return mk_sum(var, size, rest) - head
                if lo is not None and lo >= 0:
                    return mul(
                        ind(size - cut),
                        mk_sum(var, size, rest) - mk_sum(var, cut, _resize(rest, var, cut)),
                    )
            elif k == -1:
                # var < q
                cut = q
                lo, _ = lin_bounds(cut)
                lo2, _ = lin_bounds(size - cut)
                if lo is not None and lo >= 0 and lo2 is not None and lo2 >= 0:
                    return mk_sum(var, cut, _resize(rest, var, cut))
                g = ind(size - cut)
                part = mk_sum(var, cut, _resize(rest, var, cut))
                if lo is None or lo < 0:
                    part = mul(ind(cut), part)
                return mul(g, part) + mul(ONE_T - g, mk_sum(var, size, rest))
    body = mono_term(m)
    offs = []
    _offsets(body, var, offs)
    shift = None
    neg = False
    ok = True
    for i in offs:
        r = _lin_in(i, var)
        if r is None:
            ok = False
            break
        k, q = r
        if k == -1:
            neg = True
        elif k != 1:
            ok = False
            break
        c = F(0)
        for mm, cc in q.monos:
            if mm == ():
                c = cc
        if shift is None or c < shift:
            shift = c
    if ok and offs and neg and all(_lin_in(i, var)[0] == -1 for i in offs):
        # reversed traversal
        v = idx_atom(fresh_name("r"), size)
        return mk_sum(v, size, subst(body, {var: size - 1 - atom_term(v)}))
    if not offs and size.const() is None or (not offs and size.const() > UNROLL):
        shift = _raw_shift(body, var, size)
    if ok and not neg and shift:
        s = int(shift)
        v = idx_atom(fresh_name("s"), size + abs(s))
        h = subst(body, {var: atom_term(v) - s})
        if s > 0:
            # sum_{i<N} h(i+s) = sum_{i<N+s} h(i) - sum_{i<s} h(i)
            r = mk_sum(v, size + s, _resize(h, v, size + s))
            if s > 12:
                raise TooBig()
            for k in range(s):
                r = r - subst(h, {v: num(k)})
            return r
        s = -s
        if s > 12:
            raise TooBig()
        n = lin_bounds(size)[0]
        r = mk_sum(v, size - s, _resize(h, v, size - s))
        for k in range(1, s + 1):
            r = r + subst(body, {var: num(s - k)})
        return r
    # size: drop the constant part
    const = F(0)
    for mm, cc in size.monos:
        if mm == ():
            const = cc
    if const and not size.is_const() and const.denominator == 1 and abs(const) <= 12:
        base = size - num(const)
        r = mk_sum(var, base, _resize(body, var, base))
        body1 = _resize_free(body, var)
        k = int(const)
        if k > 0:
            for j in range(k):
                r = r + subst(body, {var: base + j})
        else:
            for j in range(1, -k + 1):
                r = r - subst(body, {var: base - j})
        return r
    # nested sums over independent ranges: the smallest range key goes outermost
    inner = [a for a, e in m if a.kind == "sum" and e == 1 and var in a.deps]
    if len(inner) == 1:
        a = inner[0]
        c2, size2, bd2 = a.data
        if var not in size2.deps and size2.key < size.key:
            v2 = idx_atom(fresh_name("f"), size2)
            rest = mono_term(tuple(x for x in m if x[0] is not a))
            return mk_sum(v2, size2, mk_sum(var, size, mul(rest, subst(bd2, {c2: atom_term(v2)}))))
    b, bd = _close(var, body, size)

    def mk(bd):
        if b not in bd.deps:
            return size * bd
        return atom_term(_mk_atom(
            "sum",
            (b, size, bd),
            (bd.deps - {b}) | size.deps,
            bd.h + 1,
            (size.key, bd.key),
            bd.opaque,
        ))

    return _pull(bd, b, mk)


def _pull(bd, b, mk):
    """closing an index re-normalises the body: pull out what became index-free"""
    if len(bd.monos) == 1 and bd.monos[0][1] == 1:
        m = bd.monos[0][0]
        if all(b in a.deps and not (a.kind == "fn" and a.data[0] == "exp") for a, e in m):
            return mk(bd)
    out = []
    for m, c in bd.monos:
        ft, dt = split_factors(m, b)
        for dm, dc in dt.monos:
            out.append(scale(mul(ft, mk(mono_term(dm))), c * dc))
    return add_many(out)


def term_size(t, seen=None):
    """number of distinct reachable subterms (a structural size)"""
    seen = {} if seen is None else seen
    if t.key in seen:
        return 0
    seen[t.key] = None
    n = 0
    for m, c in t.monos:
        n += 1 + len(m)
        for a, e in m:
            for x in _children(a):
                n += term_size(x, seen)
    return n


def _raw_shift(body, var, size):
    """canonical offset of an index that occurs only arithmetically"""
    best = None
    for s in (0, 1, -1, 2, -2):
        v = idx_atom(("rs", 0), size + abs(s))
        h = subst(body, {var: atom_term(v) - s}) if s else subst(body, {var: atom_term(v)})
        k = (term_size(h), h.key)
        if best is None or k[0] < best[0][0]:
            best = (k, s)
    return best[1]


def _resize(body, var, size):
    # var's own size attribute only matters for guard decisions; body is already built
    return body


def _resize_free(body, var):
    return body


def _lin_in(p, var):
    """p == k*var + q with q free of var and k in {1,-1,...} rational, else None"""
    k = F(0)
    q = {}
    for m, c in p.monos:
        if any(var in a.deps for a, _ in m):
            if len(m) == 1 and m[0][0] is var and m[0][1] == 1:
                k += c
            else:
                return None
        else:
            q[m] = c
    if k == 0:
        return None
    return k, mk_term(q)


def _all_literals(var, size, body):
    """for all v: a conjunction of order literals, as bounds on extrema"""
    inds = [a for a in inds_of(body)]
    if not 1 <= len(inds) <= 4:
        return None
    lits, prod = [], ONE_T
    for a in inds:
        if a.data[0] != "gt":
            return None
        t = atom_term(a)
        if mul(body, t) is ZERO_T:
            lits.append((a, False))
            prod = mul(prod, ONE_T - t)
        elif mul(body, t) is body:
            lits.append((a, True))
            prod = mul(prod, t)
        else:
            return None
    if prod is not body:
        return None
    r = ONE_T
    for a, pos in lits:
        p = a.data[1]
        if var not in p.deps:
            r = mul(r, atom_term(a) if pos else ONE_T - atom_term(a))
        elif pos:
            r = mul(r, ind(mk_red("min", var, size, p)))
        else:
            r = mul(r, ONE_T - ind(mk_red("max", var, size, p)))
    return r


def mk_red(op, var, size, body):
    """max/min/all/any/... reduction over an index"""
    size = lift(size)
    body = unbox(body)
    if op == "all" or op == "any":
        if var not in body.deps:
            return body
        n = size.const()
        if n is not None and n <= UNROLL:
            r = None
            for k in range(int(n)):
                x = subst(body, {var: num(k)})
                r = x if r is None else (band(r, x) if op == "all" else bor(r, x))
            return r
        if op == "any":
            return bnot(mk_red("all", var, size, bnot(body)))
        r = _all_literals(var, size, body)
        if r is not None:
            return r
        b, bd = _close(var, body, size)
        a = _mk_atom("ind", ("all", b, size, bd), (bd.deps - {b}) | size.deps, bd.h + 1, ("all", size.key, bd.key), bd.opaque)
        return atom_term(a)
    if op in ("max", "min"):
        if var not in body.deps:
            return body
        n = size.const()
        if n is not None and n <= UNROLL:
            r = None
            for k in range(int(n)):
                x = subst(body, {var: num(k)})
                r = x if r is None else (tmax(r, x) if op == "max" else tmin(r, x))
            return r
        c, g, base = content(body, positive_only=True)
        ft, dt = split_factors(g, var)
        if not (len(ft.monos) == 1 and mono_sign(ft.monos[0][0]) == POS):
            ft, dt = ONE_T, mono_term(g)
        inner = mul(dt, base)
        addc = {mm: cc for mm, cc in inner.monos if not any(var in a.deps for a, _ in mm)}
        addt = mk_term(addc)
        inner = inner - addt
        if not inner.monos:
            return body
        if _lead_coeff_int(inner) < 0:
            # max(-x) = -min(x)
            b, bd = _close(var, -inner, size)
            op = "min" if op == "max" else "max"
            a = _mk_atom("red", (op, b, size, bd), (bd.deps - {b}) | size.deps, bd.h + 1, (op, size.key, bd.key), bd.opaque)
            return scale(mul(ft, addt - atom_term(a)), c)
        b, bd = _close(var, inner, size)
        a = _mk_atom("red", (op, b, size, bd), (bd.deps - {b}) | size.deps, bd.h + 1, (op, size.key, bd.key), bd.opaque)
        return scale(mul(ft, atom_term(a) + addt), c)
    b, bd = _close(var, body, size)
    a = _mk_atom("red", (op, b, size, bd), (bd.deps - {b}) | size.deps, bd.h + 1, (op, size.key, bd.key), True)
    return atom_term(a)


# ---------------------------------------------------------------- functional atoms


def linspace_el(lo, hi, n, i):
    """i-th of n equally spaced points"""
    lo, hi, n, i = lift(lo), lift(hi), lift(n), lift(i)
    if i is ZERO_T:
        return lo
    if i is n - 1:
        return hi
    if lo is hi:
        return lo
    return lo + (hi - lo) * i / (n - 1)


def interp(xq, xp, fp, left=None, right=None):
    """numpy interp; xp, fp are Lams over the same size"""
    n = xp.size
    if inds_of(xq):
        return lift_inds(xq, lambda u: interp(u, xp, fp, left, right))
    x0 = lam_at(xp, ZERO_T)
    x1 = lam_at(xp, n - 1)
    if left is None:
        left = lam_at(fp, ZERO_T)
    if right is None:
        right = lam_at(fp, n - 1)
    lo = ind(x0 - xq)
    hi = ind(xq - x1)
    return I0(xq, xp, fp) + left * lo + right * hi


def I0(xq, xp, fp):
    xq = unbox(xq)
    """linear interpolation inside [xp0, xpN], zero outside; linear in fp"""
    n = xp.size
    v = idx_atom(fresh_name("p"), n)
    xb = unbox_small(subst(xp.body, {xp.bvar: atom_term(v)}))
    fb = subst(fp.body, {fp.bvar: atom_term(v)})
    # guards free of the index move outside
    gi = [a for a in inds_of(fb) if v not in a.deps]
    # translation invariance
    addc = mk_term({m: c for m, c in xb.monos if not any(v in a.deps for a, _ in m)})
    if addc.monos:
        xb = xb - addc
        xq = xq - addc
        if inds_of(xq):
            return lift_inds(xq, lambda u: I0(u, mk_lam(v, n, xb), fp))
    # scale invariance
    if not xb.monos:
        return fn("I0degenerate", xq, opaque=True)
    c, g, base = content(xb, positive_only=True)
    gf = tuple((a, e) for a, e in g if v not in a.deps)
    if c != 1 or gf:
        inv = mul(num(1 / c), _mono_power(gf, F(1), F(-1)) if gf else ONE_T)
        xb = mul(xb, inv)
        xq = mul(xq, inv)
    if len(xb.monos) > 1:
        # every element carries the same positive index-free factor
        grp = {}
        for m, k in xb.monos:
            ft, dt = split_factors(m, v)
            for dm, dc in dt.monos:
                grp[dm] = grp.get(dm, ZERO_T) + scale(ft, k * dc)
        cf = [x for x in grp.values() if x.monos]
        if len(cf[0].monos) > 1:
            k0 = scale(cf[0], 1 / abs(cf[0].monos[0][1]))
            if all(x is scale(k0, abs(x.monos[0][1])) for x in cf) and sign(k0) == POS:
                inv = power(k0, F(-1))
                xb = add_many([mul(scale(mono_term(dm), abs(x.monos[0][1])), ONE_T) for dm, x in grp.items() if x.monos])
                return I0(mul(xq, inv), mk_lam(v, n, xb), fp)
    xl = mk_lam(v, n, xb)
    x0 = subst(xb, {v: ZERO_T})
    x1 = subst(xb, {v: n - 1})
    if xq is x0:
        return lam_at(fp, ZERO_T)
    if xq is x1:
        return lam_at(fp, n - 1)
    inside = None
    out = []
    for m, cc in fb.monos:
        ft, dt = split_factors(m, v)
        for dm, dc in dt.monos:
            if not any(v in a.deps for a, _ in dm):
                if inside is None:
                    inside = ONE_T - ind(x0 - xq) - ind(xq - x1)
                out.append(scale(mul(ft, mul(mono_term(dm), inside)), cc * dc))
                continue
            lm = mk_lam(v, n, mono_term(dm))
            r = _pull(lm.body, lm.bvar, lambda bd: fn("I0", xq, xl, Lam(lm.bvar, n, bd)) if lm.bvar in bd.deps else None)
            out.append(scale(mul(ft, r), cc * dc))
    return add_many(out)


# ---------------------------------------------------------------- substitution


def subst(t, mp, symf=None, extra=()):
    """mp: {Atom: Term};  symf: {name: f(idx Terms) -> Term}"""
    if not mp and not symf and not extra:
        return t
    cache = {}
    keys = set(mp)
    keys.update(extra)
    for k in mp:
        if k.kind == "sym":
            keys.add(k.data[0])
    if symf:
        keys |= set(symf)
    return _subst(t, mp, symf, keys, cache)


def _subst(t, mp, symf, keys, cache):
    if t.deps.isdisjoint(keys):
        return t
    r = cache.get(t)
    if r is not None:
        return r
    parts = []
    same = {}
    for m, c in t.monos:
        p = None
        keep = []
        for a, e in m:
            if a.deps.isdisjoint(keys):
                keep.append((a, e))
            else:
                x = _subst_atom(a, mp, symf, keys, cache)
                if a.kind == "ind" or e == 1:
                    pass
                else:
                    x = power(x, e)
                p = x if p is None else mul(p, x)
        if p is None:
            same[m] = same.get(m, 0) + c
        else:
            parts.append(mul(mono_term(tuple(keep), c), p))
    r = add_many([mk_term(same)] + parts)
    cache[t] = r
    return r


def _subst_lam(l, mp, symf, keys, cache):
    if (l.body.deps - {l.bvar}).isdisjoint(keys) and l.size.deps.isdisjoint(keys):
        return l
    size = _subst(l.size, mp, symf, keys, cache)
    v = idx_atom(fresh_name("l"), size)
    mp2 = {k: x for k, x in mp.items() if k is not l.bvar}
    mp2[l.bvar] = atom_term(v)
    body = subst(l.body, mp2, symf, _OPENERS & keys)
    return mk_lam(v, size, body)


def _subst_atom(a, mp, symf, keys, cache):
    r = mp.get(a)
    if r is not None:
        return r
    r = cache.get(a)
    if r is not None:
        return r
    r = _subst_atom0(a, mp, symf, keys, cache)
    cache[a] = r
    return r


def _subst_atom0(a, mp, symf, keys, cache):
    S = lambda t: _subst(t, mp, symf, keys, cache)
    k = a.kind
    if k == "idx":
        name, size = a.data
        if size.deps.isdisjoint(keys):
            return atom_term(a)
        return atom_term(idx_atom(name, S(size)))
    if k == "sym":
        name, idxs = a.data
        ni = tuple(S(i) for i in idxs)
        if symf and name in symf:
            return symf[name](*ni)
        return sym_at(name, ni)
    if k == "fn":
        n, args = a.data
        if n == "box":
            return S(args[0]) if "!box" in keys else box(S(args[0]))
        if n == "relu":
            p = S(args[0])
            return p * ind(p) if "!relu" in keys else relu(p)
        na = tuple(
            S(x) if isinstance(x, Term) else _subst_lam(x, mp, symf, keys, cache) if isinstance(x, Lam) else x
            for x in args
        )
        return rebuild_fn(n, na, a.opaque)
    if k == "poly":
        return S(a.data[0])
    if k == "ind":
        tag = a.data[0]
        if tag == "gt":
            return ind(S(a.data[1]))
        if tag == "all":
            _, b, size, body = a.data
            return _rebind(lambda v, s, bd: mk_red("all", v, s, bd), b, size, body, mp, symf, S, keys)
        na = tuple(
            S(x) if isinstance(x, Term) else _subst_lam(x, mp, symf, keys, cache) if isinstance(x, Lam) else x
            for x in a.data[1:]
        )
        return bool_atom(tag, *na, opaque=a.opaque)
    if k == "sum":
        b, size, body = a.data
        return _rebind(mk_sum, b, size, body, mp, symf, S, keys)
    if k == "red":
        op, b, size, body = a.data
        return _rebind(lambda v, s, bd: mk_red(op, v, s, bd), b, size, body, mp, symf, S, keys)
    return atom_term(a)


_OPENERS = {"!box", "!relu"}


def _rebind(maker, b, size, body, mp, symf, S, keys=frozenset()):
    ns = S(size)
    v = idx_atom(fresh_name("q"), ns)
    mp2 = {k: x for k, x in mp.items() if k is not b}
    mp2[b] = atom_term(v)
    return maker(v, ns, subst(body, mp2, symf, _OPENERS & keys))


SYM_LIFT = [True]


def sym_at(name, idxs):
    """array element with guards in the index moved outside"""
    for j, i in enumerate(idxs):
        if inds_of(i):
            return lift_inds(i, lambda u: sym_at(name, idxs[:j] + (u,) + idxs[j + 1 :]))
    return sym(name, *idxs)


def rebuild_fn(n, args, opaque):
    if n == "exp":
        return exp(args[0])
    if n == "ln":
        return ln(args[0])
    if n == "I0":
        return I0_lift(*args)
    if n in FN_REBUILD:
        return FN_REBUILD[n](*args)
    return fn(n, *args, opaque=opaque)


FN_REBUILD = {}


def _divmod_parts(t, s):
    """(q, r) with t == q*s + r and 0 <= r < s, or None"""
    c = s.const()
    if c == 1:
        return t, ZERO_T
    if t.const() is not None and c is not None:
        q = t.const() // c
        return num(q), num(t.const() - q * c)
    if len(s.monos) != 1:
        return None
    sm, sc = s.monos[0]
    q, r = {}, {}
    for m, k in t.monos:
        d = dict(m)
        if all(d.get(a, 0) >= e for a, e in sm) and (k / sc).denominator == 1:
            qm = tuple((a, e - dict(sm).get(a, 0)) for a, e in m if e != dict(sm).get(a, 0))
            q[qm] = q.get(qm, 0) + k / sc
        else:
            r[m] = k
    q, r = mk_term(q), mk_term(r)
    for k in (0, -1, 1):
        rr = r - scale(s, F(k))
        lo = lin_bounds(rr)[0]
        hi = lin_bounds(s - 1 - rr)[0]
        if lo is not None and hi is not None and lo >= 0 and hi >= 0:
            return q + k, rr
    return None


def idiv(t, s):
    """integer quotient of an index by a positive size"""
    t, s = lift(t), lift(s)
    r = _divmod_parts(t, s)
    return r[0] if r else fn("idiv", t, s)


def imod(t, s):
    t, s = lift(t), lift(s)
    r = _divmod_parts(t, s)
    return r[1] if r else fn("imod", t, s)


FN_REBUILD["idiv"] = idiv
FN_REBUILD["imod"] = imod


def _flat_split(var, body):
    """the divisor by which a flattened index is taken apart"""
    for a in atoms_in(body):
        if a.kind == "fn" and a.data[0] in ("idiv", "imod"):
            t = a.data[1][0]
            if len(t.monos) == 1 and t.monos[0] == (((var, F(1)),), F(1)):
                return a.data[1][1]
    return None


def _has_flat(t):
    return any(a.kind == "fn" and a.data[0] in ("idiv", "imod") for a in atoms_in(t))


def I0_lift(xq, xp, fp):
    if inds_of(xq):
        return lift_inds(xq, lambda u: I0(u, xp, fp))
    return I0(xq, xp, fp)


# ---------------------------------------------------------------- printing


def show(t, lim=400):
    if not t.monos:
        return "0"
    parts = []
    n = 0
    for m, c in t.monos:
        s = "*".join(show_atom(a) + ("" if e == 1 else "^%s" % e) for a, e in m)
        if not s:
            s = str(c)
        elif c == 1:
            pass
        elif c == -1:
            s = "-" + s
        else:
            s = "%s*%s" % (c, s)
        parts.append(s)
        n += len(s)
        if n > lim:
            parts.append("...")
            break
    return " + ".join(parts)


def show_atom(a):
    k = a.kind
    if k == "idx":
        n = a.data[0]
        return "%s%s" % n if isinstance(n, tuple) else str(n)
    if k == "dim":
        return str(a.data[0])
    if k == "sym":
        n, i = a.data
        return n + ("[" + ",".join(map(show, i)) + "]" if i else "")
    if k == "prime":
        return str(a.data[0])
    if k == "poly":
        return "(" + show(a.data[0], 200) + ")"
    if k == "ind":
        if a.data[0] == "gt":
            return "[" + show(a.data[1], 200) + " > 0]"
        if a.data[0] == "all":
            return "all{%s<%s}[%s]" % (show_atom(a.data[1]), show(a.data[2]), show(a.data[3], 200))
        return "[" + a.data[0] + "(" + ", ".join(_show_arg(x) for x in a.data[1:]) + ")]"
    if k == "sum":
        return "sum{%s<%s}(%s)" % (show_atom(a.data[0]), show(a.data[1]), show(a.data[2], 200))
    if k == "red":
        return "%s{%s<%s}(%s)" % (a.data[0], show_atom(a.data[1]), show(a.data[2]), show(a.data[3], 200))
    n, args = a.data
    if not args:
        return n
    return n + "(" + ", ".join(_show_arg(x) for x in args) + ")"


def _show_arg(x):
    if isinstance(x, Term):
        return show(x, 200)
    if isinstance(x, Lam):
        return "%s=>%s" % (show_atom(x.bvar), show(x.body, 200))
    return repr(x)


def atoms_in(t, acc=None, deep=True):
    """all atoms reachable in t"""
    acc = {} if acc is None else acc
    for m, c in t.monos:
        for a, e in m:
            _atoms_in_atom(a, acc, deep)
    return acc


def _atoms_in_atom(a, acc, deep):
    if a in acc:
        return
    acc[a] = None
    if not deep:
        return
    for x in _children(a):
        atoms_in(x, acc, deep)


def _children(a):
    k = a.kind
    if k == "sym":
        return list(a.data[1])
    if k == "fn":
        out = []
        for x in a.data[1]:
            if isinstance(x, Term):
                out.append(x)
            elif isinstance(x, Lam):
                out += [x.size, x.body]
        return out
    if k == "poly":
        return [a.data[0]]
    if k == "ind":
        out = []
        for x in a.data[1:]:
            if isinstance(x, Term):
                out.append(x)
            elif isinstance(x, Lam):
                out += [x.size, x.body]
        return out
    if k == "sum":
        return [a.data[1], a.data[2]]
    if k == "red":
        return [a.data[2], a.data[3]]
    return []
