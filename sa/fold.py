"""Recognition of the triweight cumulative kernel.

Any expression congruent to the clipped seventh-degree triweight polynomial of some
z is rewritten to the named value tw(z); however the source spells it (where / clip /
select / Horner form / inlined), the same value number results.
"""
import math

from . import terms as T
from .terms import *


def tw_poly(z):
    z2 = mul(z, z)
    z3 = mul(z2, z)
    z5 = mul(z3, z2)
    z7 = mul(z5, z2)
    return (
        scale(z7, F(-5, 69984)) + scale(z5, F(7, 2592)) + scale(z3, F(-35, 864)) + scale(z, F(35, 96)) + num(F(1, 2))
    )


def tw(z):
    """cumulative triweight kernel: 0 below -3, 1 above 3"""
    z = unbox(lift(z))
    if inds_of(z):
        return lift_inds(z, tw)
    c = z.const()
    if c is not None:
        if c <= -3:
            return ZERO_T
        if c >= 3:
            return ONE_T
        return tw_poly(z)
    lead = None
    for m, k in z.monos:
        if m != ():
            lead = k
            break
    if lead is not None and lead < 0:
        return ONE_T - tw(-z)
    return fn("tw", z)


T.FN_REBUILD["tw"] = tw

def twp_poly(z):
    """triweight density shape on [-3, 3]"""
    z2 = mul(z, z)
    u = ONE_T - scale(z2, F(1, 9))
    return scale(mul(u, mul(u, u)), F(35, 96))


def twp(z):
    """triweight density kernel: 0 outside [-3, 3]"""
    z = unbox(lift(z))
    if inds_of(z):
        return lift_inds(z, twp)
    c = z.const()
    if c is not None:
        return ZERO_T if abs(c) >= 3 else twp_poly(z)
    lead = None
    for m, k in z.monos:
        if m != ():
            lead = k
            break
    if lead is not None and lead < 0:
        z = -z
    return fn("twp", z)


T.FN_REBUILD["twp"] = twp


def twp_def(z):
    hi, lo = ind(z - 3), ind(-z - 3)
    return mul(twp_poly(z), ONE_T - hi - lo)


_DEF = {}


def tw_def(z):
    r = _DEF.get(z)
    if r is None:
        hi, lo = ind(z - 3), ind(-z - 3)
        r = mul(tw_poly(z), ONE_T - hi - lo) + hi
        _DEF[z] = r
    return r


_SEEN = {}


def fold(t):
    r = _SEEN.get(t)
    if r is None:
        r = _SEEN[t] = _fold_any(t)
    return r


def _is_box(a):
    return a.kind == "fn" and a.data[0] in ("box", "relu")


def _fold_any(t):
    u = t
    for _ in range(4):
        if len(u.monos) > 400:
            break
        gs = []
        bad = False
        for m, c in u.monos:
            for a, e in m:
                if a.kind == "ind":
                    if a.data[0] != "gt":
                        return t
                    if a not in gs:
                        gs.append(a)
                        bad = bad or int_like(a.data[1])
                        if len(gs) > 2:
                            return t
        if bad:
            return t
        if len(gs) == 2 and len(u.monos) >= 8:
            r = _fold(u, gs)
            if r is not u:
                return r
        if not gs and "!relu" in u.deps and len(u.monos) >= 4:
            r = _fold_clipped(u)
            if r is not None:
                return r
        if not gs and "!relu" in u.deps and len(u.monos) >= 8:
            rs = {a for m, c in u.monos for a, e in m if a.kind == "fn" and a.data[0] == "relu"}
            if 1 <= len(rs) <= 2:
                v = unrelu(u)
                if v is not u:
                    u = v
                    continue
        if not gs:
            # only candidates with a guard or a clipped argument
            if "!relu" not in u.deps:
                return t
        if not any(_is_box(a) for m, c in u.monos for a, e in m):
            return t
        if _open_size(u) > 400:
            return t
        v = unbox1(u)
        if v is u:
            return t
        u = v
    return t


def _fold_clipped(t):
    """the triweight polynomial of an argument clipped to [-3, 3]: with N = max(a - k max(q,0), 0),
    a > 0, the clipped argument is 3 - 6 N/a and the unclipped one 6 k q/a - 3"""
    rs = {a for m, c in t.monos for a, e in m if a.kind == "fn" and a.data[0] == "relu"}
    if len(rs) != 1:
        return None
    n = rs.pop()
    p = n.data[1][0]
    inner = [(m, c, a) for m, c in p.monos for a, e in m if a.kind == "fn" and a.data[0] == "relu" and e == 1]
    if len(inner) != 1:
        return None
    m, c, q = inner[0]
    a = p - mono_term(m, c)
    co = scale(mono_term(tuple(x for x in m if x[0] is not q)), -c)
    qt = q.data[1][0]
    if sign(a) != POS:
        # max(q,0) = q + max(-q,0)
        a, qt = a - mul(co, qt), -qt
    if "!relu" in a.deps or sign(a) != POS or sign(co) != POS or len(a.monos) > 3:
        return None
    u = scale(mul(atom_term(n), power(a, F(-1))), F(6))
    z = scale(mul(mul(co, qt), power(a, F(-1))), F(6)) - 3
    if t is tw_poly(num(3) - u):
        return tw(z)
    if t is tw_poly(u - 3):
        return ONE_T - tw(z)
    if len(t.monos) <= 8:
        d = twp_poly(num(3) - u)
        c1, g1, b1 = content(t, positive_only=True)
        c2, g2, b2 = content(d, positive_only=True)
        if b1 is b2:
            return mul(scale(mul(mono_term(g1), T._mono_power(g2, ONE_F, F(-1)) if g2 else ONE_T), c1 / c2), twp(z))
    return None


def _open_size(t):
    """number of monomials after opening the outermost named values"""
    n = 0
    for m, c in t.monos:
        k = 1
        for a, e in m:
            if a.kind == "fn" and a.data[0] == "box":
                q = len(a.data[1][0].monos)
                j = int(e) if e.denominator == 1 and e > 0 else 1
                k *= math.comb(q + j - 1, j)
        n += k
        if n > 10000:
            break
    return n


def _fold_density(t, z, gs):
    t0 = set_ind(t, {g: 0 for g in gs})
    pz = twp_poly(z)
    if len(z.monos) == 1 and len(z.monos[0][0]) == 1 and z.monos[0][0][0][1] == 1:
        # scale factor: the value at z = 0
        a = z.monos[0][0][0][0]
        k = T.mk_term({m: c * F(96, 35) for m, c in t0.monos if not any(b is a for b, e in m)})
        d = mul(k, twp_def(z))
        if k.monos and (d is t or _shallow_equal(t, d)):
            return mul(k, twp(z))
        return None
    if len(t0.monos) != len(pz.monos):
        return None
    c1, g1, b1 = content(t0, positive_only=True)
    c2, g2, b2 = content(pz, positive_only=True)
    k = scale(mul(mono_term(g1), T._mono_power(g2, ONE_F, F(-1)) if g2 else ONE_T), c1 / c2)
    if b1 is -b2:
        k = -k
    elif b1 is not b2:
        return None
    d = mul(k, twp_def(z))
    if d is t or _shallow_equal(t, d):
        return mul(k, twp(z))
    return None


def _shallow_equal(a, b):
    from . import equiv

    T.NO_UNBOX[0] += 1
    try:
        return equiv._is_zero(a - b, equiv.Budget(0.5), 12)
    except (TooBig, RecursionError):
        return None
    finally:
        T.NO_UNBOX[0] -= 1


def _fold(t, gs):
    equal = lambda a, b, s: _shallow_equal(a, b)

    p0, q0 = gs[0].data[1], gs[1].data[1]
    for sp in (1, -1):
        for sq in (1, -1):
            p, q = scale(p0, F(sp)), scale(q0, F(sq))
            s = p + q
            if len(s.monos) > 2 or sign(s) != NEG:
                # the same bounds in other units
                dq = dict(q.monos)
                for m, c in p.monos:
                    if m != () and m in dq and c * dq[m] < 0:
                        s2 = p + scale(q, -c / dq[m])
                        if len(s2.monos) <= 2 and sign(s2) == NEG:
                            q, s = scale(q, -c / dq[m]), s2
                            break
            if len(s.monos) > 2 or sign(s) != NEG:
                continue
            z = mul(p - q, power(s, F(-1)))
            z = scale(z, F(-3))
            if z.is_const():
                continue
            d = tw_def(z)
            if d is t:
                return tw(z)
            d2 = tw_def(-z)
            if d2 is t:
                return tw(-z)
            r = _fold_density(t, z, gs)
            if r is not None:
                return r
            if equal(t, d, 1.0):
                return tw(z)
            if equal(t, d2, 1.0):
                return tw(-z)
    return t
