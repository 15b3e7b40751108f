"""Congruence of canonical terms: decide a - b == 0 by rewriting.

Beyond identity of normal forms: clears denominators, aligns summation ranges,
combines linear functionals, splits on guards (each guard a three-way case with
infeasible combinations pruned by the sign domain) and unifies functional atoms
whose arguments are congruent.
Returns True, False, or None (not decided: unmodelled atoms or size bound hit).
"""
import time

from .terms import *
from . import terms as T


class Budget:
    def __init__(self, secs=60.0):
        self.t = time.process_time() + secs

    def check(self):
        if time.process_time() > self.t:
            raise TooBig()


def clear_denoms(d):
    for _ in range(12):
        mins = {}
        for m, c in d.monos:
            for a, e in m:
                if e < 0 and a.kind == "poly":
                    if a not in mins or e < mins[a]:
                        mins[a] = e
        if not mins:
            return d
        for a, e in sorted(mins.items(), key=lambda x: x[0].key):
            k = -math.floor(e)
            d = mul_poly_pow(d, a, F(k))
            if not d.monos:
                return d
    return d


def mul_poly_pow(d, a, k):
    parts = []
    cache = {}
    for m, c in d.monos:
        e = F(0)
        rest = []
        for b, x in m:
            if b is a:
                e = x
            else:
                rest.append((b, x))
        ne = e + k
        p = cache.get(ne)
        if p is None:
            p = cache[ne] = ONE_T if ne == 0 else (T._atom_pow(a, ne))
        parts.append(mul(mono_term(tuple(rest), c), p))
    return add_many(parts)


def clear_neg(d):
    """multiply by positive powers of plain atoms so that no exponent is negative"""
    mins = {}
    for m, c in d.monos:
        for a, e in m:
            if e < 0 and a.kind != "poly":
                mins[a] = min(mins.get(a, 0), e)
    if not mins:
        return d
    g = tuple(sorted(((a, -e) for a, e in mins.items()), key=lambda x: x[0].key))
    return mul(d, mono_term(g))


def _sum_atoms(d):
    out = {}
    for m, c in d.monos:
        for a, e in m:
            if a.kind == "sum":
                out[a] = None
    return list(out)


def align_sums(d):
    groups = {}
    for a in _sum_atoms(d):
        n = a.data[1].const()
        if n is not None:
            groups.setdefault(None, []).append((int(n), a))
    g = groups.get(None)
    if not g:
        return d
    sizes = sorted(set(n for n, _ in g), reverse=True)
    if len(sizes) < 2:
        return d
    mp = {}
    for n, a in g:
        tgt = None
        for s in sizes:
            if 0 < s - n <= 12:
                tgt = s
                break
        if tgt is None:
            continue
        b, size, body = a.data
        v = idx_atom(fresh_name("al"), num(tgt))
        bd = subst(body, {b: atom_term(v)})
        r = mk_sum(v, num(tgt), bd)
        for k in range(n, tgt):
            r = r - subst(body, {b: num(k)})
        mp[a] = r
    return replace_atoms(d, mp) if mp else d


def replace_atoms(d, mp):
    """replace top-level atoms by terms"""
    parts, same = [], {}
    for m, c in d.monos:
        p, keep = None, []
        for a, e in m:
            if a in mp:
                x = mp[a]
                if a.kind == "poly":
                    x = T._atom_pow(x.monos[0][0][0][0], e)
                else:
                    x = x if (e == 1 or a.kind == "ind") else power(x, e)
                p = x if p is None else mul(p, x)
            else:
                keep.append((a, e))
        if p is None:
            same[m] = same.get(m, 0) + c
        else:
            parts.append(mul(mono_term(tuple(keep), c), p))
    return add_many([mk_term(same)] + parts)


def is_zero(d, budget=None, depth=0):
    budget = budget or Budget()
    if "!box" in d.deps:
        # named intermediate values compared as such first
        b = Budget(min(10.0, (budget.t - time.process_time()) / 4))
        T.NO_UNBOX[0] += 1
        try:
            if _is_zero(d, b, depth) is True:
                return True
        except (TooBig, RecursionError):
            pass
        finally:
            T.NO_UNBOX[0] -= 1
    r = None
    try:
        u = T.unbox(d)
        r = _is_zero(u, budget, depth)
    except (TooBig, RecursionError):
        pass
    if r is True or depth:
        return r
    for x in (d, None):
        try:
            x = d if x is not None else T.unbox(d)
            y = Canon(budget).term(x)
            if y is x:
                continue
            if _is_zero(T.unbox(y), budget, depth) is True:
                return True
        except (TooBig, RecursionError):
            pass
    return r


class Canon:
    """merge congruent subterms at every depth, innermost first"""

    def __init__(self, budget):
        self.budget = budget
        self.buckets = {}
        self.cache = {}

    def term(self, t, lvl=0):
        if not any(a.kind in ("fn", "sum", "red", "poly", "ind") for m, c in t.monos for a, e in m):
            return t
        k = (t, lvl)
        r = self.cache.get(k)
        if r is not None:
            return r
        self.budget.check()
        parts, same, hit = [], {}, False
        for m, c in t.monos:
            p, keep = None, []
            for a, e in m:
                x = self.atom(a, lvl)
                if len(x.monos) == 1 and x.monos[0][0] == ((a, F(1)),) and x.monos[0][1] == 1:
                    keep.append((a, e))
                    continue
                hit = True
                if a.kind == "poly":
                    x = power(x, e)
                elif e != 1 and a.kind != "ind":
                    x = power(x, e)
                p = x if p is None else mul(p, x)
            if p is None:
                same[m] = same.get(m, 0) + c
            else:
                parts.append(mul(mono_term(tuple(keep), c), p))
        r = add_many([mk_term(same)] + parts) if hit else t
        self.cache[k] = r
        return r

    def body(self, b, size, body, lvl):
        v = idx_atom(("cn", lvl), size)
        return v, self.term(subst(body, {b: atom_term(v)}), lvl + 1)

    def atom(self, a, lvl):
        """canonical value of the atom (of its base, for a poly atom)"""
        k = (a, lvl)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self._atom(a, lvl)
        return r

    def _atom(self, a, lvl):
        k = a.kind
        if k == "poly":
            q = self.term(a.data[0], lvl)
            if len(q.monos) < 2:
                return q
            r = self.rep(T.poly_atom(q), lvl)
            return r.data[0] if r is not a else atom_term(a)
        if k == "fn" and a.data[1]:
            n, args = a.data
            na, hit = [], False
            for x in args:
                if isinstance(x, Term):
                    y = self.term(x, lvl)
                elif isinstance(x, Lam):
                    v, bd = self.body(x.bvar, x.size, x.body, lvl)
                    y = T.mk_lam(v, x.size, bd)
                    y = x if y == x else y
                else:
                    y = x
                hit = hit or y is not x
                na.append(y)
            t = atom_term(a)
            if hit:
                t = T.box(na[0]) if n == "box" else T.relu(na[0]) if n == "relu" else T.rebuild_fn(n, tuple(na), a.opaque)
        elif k == "sum":
            b, size, body = a.data
            v, bd = self.body(b, size, body, lvl)
            t = T.mk_sum(v, size, bd)
        elif k == "ind" and a.data[0] == "gt" and not int_like(a.data[1]):
            q = self.term(a.data[1], lvl)
            return atom_term(a) if q is a.data[1] else ind(q)
        elif k == "red":
            op, b, size, body = a.data
            v, bd = self.body(b, size, body, lvl)
            t = T.mk_red(op, v, size, bd)
        else:
            return atom_term(a)
        if len(t.monos) == 1 and t.monos[0][1] == 1 and len(t.monos[0][0]) == 1 and t.monos[0][0][0][1] == 1:
            x = t.monos[0][0][0][0]
            if x.kind in ("fn", "sum", "red"):
                return atom_term(self.rep(x, lvl))
        return t

    def rep(self, a, lvl):
        name = a.data[0] if a.kind in ("fn", "red") else None
        key = (a.kind, name, frozenset(x for x in a.deps if not (isinstance(x, str) and x.startswith("!"))))
        l = self.buckets.setdefault(key, [])
        if a in l:
            return a
        for r in l[:12]:
            b = Budget(max(0.2, min(4.0, (self.budget.t - time.process_time()) / 8)))
            try:
                if congruent(r, a, b, 4) is not None:
                    return r
            except (TooBig, RecursionError):
                pass
        l.append(a)
        return a


def _is_zero(d, budget, depth):
    budget.check()
    if not d.monos:
        return True
    d0 = d
    d = unify_bases(d, budget, depth)
    if not d.monos:
        return True
    d = clear_denoms(d)
    if not d.monos:
        return True
    d = align_sums(d)
    if not d.monos:
        return True
    v = const_value(d)
    if v is not None and d.is_const():
        return False
    if depth > 24:
        return None
    # index guards pin elements: they come first
    li = [a for a in inds_of(d) if a.data[0] == "gt" and int_like(a.data[1])]
    if li:
        return case_split(d, li, budget, depth)
    # linear combination of functionals
    d = combine_linear(d, budget, depth)
    if not d.monos:
        return True
    if "!relu" in d.deps:
        d2 = unify(d, budget, depth)
        if d2 is d:
            d2 = T.unrelu(d)
        return _is_zero(d2, budget, depth + 1)
    # guards
    li = inds_of(d)
    if li:
        d2 = unify_inds(d, li, budget, depth)
        if d2 is not d:
            return _is_zero(d2, budget, depth + 1)
        r = case_split(d, li, budget, depth)
        return r
    d2 = unify(d, budget, depth)
    if d2 is not d:
        return _is_zero(d2, budget, depth + 1)
    if depth < 10 and log_zero(d0, budget, depth):
        return True
    if v is not None and abs(v) > 1e-9:
        return False
    if d.opaque:
        return None
    return False


def log_zero(d, budget, depth):
    """sum_i n_i q ln X_i + r = 0 follows from prod X_i^(n_i) exp(r/q) = 1 (the X_i are positive where d is real)"""
    lns, rest, cof = {}, {}, None
    for m, c in d.monos:
        l = [a for a, e in m if a.kind == "fn" and a.data[0] == "ln" and e == 1 and a.data[1][0].const() is None]
        if len(l) > 1:
            return False
        if l:
            r = tuple(x for x in m if x[0] is not l[0])
            if cof is None:
                cof = r
            elif cof != r:
                return False
            lns[l[0]] = lns.get(l[0], 0) + c
        else:
            rest[m] = c
    if not lns or len(lns) > 6:
        return False
    q = abs(min(lns.values(), key=abs))
    if any((c / q).denominator != 1 or abs(c / q) > 4 for c in lns.values()):
        return False
    r = mk_term(rest)
    if cof and r.monos:
        r = mul(r, mono_term(tuple((a, -e) for a, e in cof)))
    pos, neg = exp(scale(r, 1 / q)), ONE_T
    for a, c in lns.items():
        x = power(T.unbox(a.data[1][0]), abs(c / q))
        if c > 0:
            pos = mul(pos, x)
        else:
            neg = mul(neg, x)
    return _is_zero_safe(pos - neg, budget, depth + 1) is True


def combine_linear(d, budget, depth):
    """sum_k c_k * Sum(body_k) with equal size -> Sum(sum_k c_k body_k); same for I0"""
    if depth > 16:
        return d
    groups = {}
    for m, c in d.monos:
        for j, (a, e) in enumerate(m):
            if e != 1:
                continue
            if a.kind == "sum":
                groups.setdefault(("sum", a.data[1].key), []).append((m, c, a))
                break
            if a.kind == "fn" and a.data[0] == "I0":
                groups.setdefault(("I0", a.data[1][0].key, a.data[1][1].key), []).append((m, c, a))
                break
    for k, lst in groups.items():
        atoms = {a for _, _, a in lst}
        if len(atoms) < 2:
            continue
        tot = []
        if k[0] == "sum":
            size = lst[0][2].data[1]
            v = idx_atom(fresh_name("cl"), size)
            for m, c, a in lst:
                b, _, body = a.data
                bd = subst(body, {b: atom_term(v)})
                rest = mono_term(tuple(x for x in m if x[0] is not a), c)
                tot.append(mul(rest, bd))
        else:
            l0 = lst[0][2].data[1][2]
            v = idx_atom(fresh_name("cl"), l0.size)
            for m, c, a in lst:
                l = a.data[1][2]
                bd = subst(l.body, {l.bvar: atom_term(v)})
                rest = mono_term(tuple(x for x in m if x[0] is not a), c)
                tot.append(mul(rest, bd))
        try:
            tt = add_many(tot)
            z = _is_zero(tt, budget, depth + 1)
        except TooBig:
            z = None
        if z:
            dead = {}
            for m, c, a in lst:
                dead[m] = dead.get(m, 0) + c
            d = d - mk_term(dead)
            if not d.monos:
                return d
    return d


def case_split(d, li, budget, depth):
    # prefer guards that others depend on; order is canonical
    a = li[0]
    if a.data[0] != "gt":
        for v in (1, 0):
            r = _is_zero(decided(d, {a: v}), budget, depth + 1)
            if r is not True:
                return r
        return True
    p = a.data[1]
    o = ind_opposite(a)
    undecided = False
    cases = [(POS, 1, 0), (NEG, 0, 1), (ZERO, 0, 0)]
    if o is None:
        cases = [(POS, 1, None), (NONPOS, 0, None)]
    for mask, va, vo in cases:
        s = sign(p)
        if not s & mask:
            continue
        vals = {a: va}
        if o is not None:
            vals[o] = vo
        dd = decided(d, vals)
        facts = [(p, mask)]
        pin = None
        if mask == POS and int_like(p):
            facts.insert(0, (p - 1, NONNEG))
            if not sign(p - 1) & POS:
                # the largest value the index can take
                pin = solve_zero(p - 1, dd)
        with assume(facts=facts):
            if mask == ZERO or (mask & s == ZERO and int_like(p)):
                mp = solve_zero(p, dd)
                if mp is None:
                    if dd.monos:
                        dd = redecide(dd)
                        r = _is_zero(dd, budget, depth + 1)
                        if r is not True:
                            # equality case not substitutable: measure-zero set, undecided
                            undecided = True
                    continue
                dd = subst(dd, mp)
            else:
                dd = redecide(subst(dd, pin) if pin else dd)
            if not _facts_consistent():
                continue
            r = _is_zero(dd, budget, depth + 1)
        if r is not True:
            return r
    return None if undecided else True


def _facts_consistent():
    fs = ctx().facts
    if len(fs) < 2:
        return True
    p, mask = fs[-1]
    T.reset_memo()
    c = ctx()
    c.facts = fs[:-1]
    try:
        s = sign(p)
    finally:
        c.facts = fs
        T.reset_memo()
    return bool(s & mask)


def decided(d, vals):
    """d with guards set; an interpolation is zero outside its grid"""
    on = [a for a, v in vals.items() if v and a.data[0] == "gt"]
    if on and any(a.kind == "fn" and a.data[0] == "I0" for m, c in d.monos for a, e in m):
        d = mk_term({
            m: c for m, c in d.monos
            if not any(a.kind == "fn" and a.data[0] == "I0" and e > 0 and any(g in on for g in T._outside(a)) for a, e in m)
        })
    return set_ind(d, vals)


def redecide(d):
    """re-evaluate guards of d under the current facts"""
    vals = {}
    for a in inds_of(d):
        if a.data[0] == "gt":
            s = sign(a.data[1])
            if s == POS:
                vals[a] = 1
            elif not s & POS:
                vals[a] = 0
    return decided(d, vals) if vals else d


def solve_zero(p, d):
    """a substitution making p zero, usable in d"""
    if int_like(p):
        for m, c in p.monos:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "idx" and abs(c) == 1:
                rest = p - mono_term(m, c)
                if m[0][0] not in rest.deps:
                    return {m[0][0]: scale(rest, -1 / c)}
    for m, c in p.monos:
        if len(m) != 1 or m[0][1] != 1:
            continue
        a = m[0][0]
        if a.kind not in ("sym",):
            continue
        rest = p - mono_term(m, c)
        name = a.data[0]
        if name in rest.deps or any(x is a for x in atoms_in(rest)):
            # same array, other element: fine if the atom itself is absent
            if any(x is a for x in atoms_in(rest)):
                continue
        return {a: scale(rest, -1 / c)}
    # monomial with a cofactor of known nonzero sign
    for m, c in p.monos:
        for a, e in m:
            if a.kind != "sym" or e != 1:
                continue
            co = tuple(x for x in m if x[0] is not a)
            rest = p - mono_term(m, c)
            if any(x is a for x in atoms_in(rest)):
                continue
            if mono_sign(co) in (POS, NEG):
                return {a: scale(rest, -1 / c) * power(mono_term(co), F(-1))}
    return None


SYM_SUBST_NOTE = """solve_zero substitutes an atom of kind sym: subst() keys include the atom itself
so occurrences below functional atoms are rewritten through their deps."""


def unify_bases(d, budget, depth):
    """bases of powers that are congruent become one before denominators are cleared"""
    if depth > 8 or len(d.monos) > 60:
        return d
    ps = {}
    for m, c in d.monos:
        for a, e in m:
            if a.kind == "poly":
                ps[a] = None
    if not 2 <= len(ps) <= 8:
        return d
    ps = sorted(ps, key=lambda a: a.key)
    mp = {}
    for i, a in enumerate(ps):
        if a in mp:
            continue
        for b in ps[i + 1 :]:
            if b not in mp and _similar(a.data[0], b.data[0]) and _quick_zero(a.data[0] - b.data[0], budget, depth + 6):
                mp[b] = atom_term(a)
    return replace_atoms(d, mp) if mp else d


def unify_inds(d, li, budget, depth):
    """congruent conditions over a whole range become one condition"""
    al = [a for a in li if a.data[0] == "all"]
    if not 2 <= len(al) <= 6 or depth > 8:
        return d
    al.sort(key=lambda a: a.key)
    mp = {}
    for i, a in enumerate(al):
        if a in mp:
            continue
        for b in al[i + 1 :]:
            if b in mp or a.data[2] is not b.data[2]:
                continue
            v = idx_atom(fresh_name("ui"), a.data[2])
            x = subst(a.data[3], {a.data[1]: atom_term(v)})
            y = subst(b.data[3], {b.data[1]: atom_term(v)})
            if _quick_zero(x - y, budget, depth + 4):
                mp[b] = atom_term(a)
    return replace_atoms(d, mp) if mp else d


def _similar(p, q):
    """cheap necessary condition: congruent bases are over the same inputs"""
    k = lambda t: {x for x in t.deps if isinstance(x, str) and not x.startswith("!")}
    return k(p) == k(q)


def _quick_zero(d, budget, depth):
    b = Budget(max(0.2, min(5.0, (budget.t - time.process_time()) / 8)))
    try:
        return _is_zero_safe(d, b, depth)
    except (TooBig, RecursionError):
        return None


def unify(d, budget, depth):
    """replace functional atoms with congruent arguments by one representative"""
    if depth > 14:
        return d
    ats = {}
    for m, c in d.monos:
        for a, e in m:
            if a.kind in ("fn", "sum", "red", "poly", "sym") and not (a.kind == "fn" and not a.data[1]):
                ats[a] = None
    ats = sorted(ats, key=lambda a: a.key)
    mp = {}
    for i, a in enumerate(ats):
        if a in mp:
            continue
        for b in ats[i + 1 :]:
            if b in mp:
                continue
            r = congruent(a, b, budget, depth + 1)
            if r is not None:
                mp[b] = r
    if not mp:
        return d
    return replace_atoms(d, mp)


def congruent(a, b, budget, depth):
    """Term equal to b expressed with a, or None"""
    if a.kind != b.kind:
        return None
    k = a.kind
    if k == "poly":
        # bases equal up to a factor: compare cross-multiplied leading coefficients
        p, q = a.data[0], b.data[0]
        if _is_zero_safe(p - q, budget, depth):
            return atom_term(a)
        return None
    if k == "sym":
        if a.data[0] != b.data[0] or len(a.data[1]) != len(b.data[1]) or not a.data[1]:
            return None
        for x, y in zip(a.data[1], b.data[1]):
            if x is not y and not _is_zero_safe(x - y, budget, depth):
                return None
        return atom_term(a)
    if k == "sum" or k == "red":
        if k == "red" and a.data[0] != b.data[0]:
            return None
        ba, sa, bda = a.data[-3:]
        bb, sb, bdb = b.data[-3:]
        if sa is not sb:
            return None
        v = idx_atom(fresh_name("un"), sa)
        x = subst(bda, {ba: atom_term(v)})
        y = subst(bdb, {bb: atom_term(v)})
        if _is_zero_safe(x - y, budget, depth):
            return atom_term(a)
        return None
    if k == "fn":
        if a.data[0] != b.data[0] or len(a.data[1]) != len(b.data[1]):
            return None
        for x, y in zip(a.data[1], b.data[1]):
            if isinstance(x, Term) and isinstance(y, Term):
                if x is not y and not _is_zero_safe(x - y, budget, depth):
                    return None
            elif isinstance(x, Lam) and isinstance(y, Lam):
                if x == y:
                    continue
                if x.size is not y.size:
                    return None
                v = idx_atom(fresh_name("un"), x.size)
                p = subst(x.body, {x.bvar: atom_term(v)})
                q = subst(y.body, {y.bvar: atom_term(v)})
                if not _is_zero_safe(p - q, budget, depth):
                    return None
            elif x != y:
                return None
        return atom_term(a)
    return None


def _is_zero_safe(d, budget, depth):
    if not d.monos:
        return True
    if d.is_const():
        return False
    try:
        return _is_zero(d, budget, depth)
    except TooBig:
        budget.check()
        return None


def equal(a, b, secs=60.0):
    d = lift(a) - lift(b)
    r = is_zero(d, Budget(secs))
    if r is True:
        return r
    at = [x for x in atoms_in(d) if x.kind == "fn" and x.data[0] == "I0"]
    if not at or len(at) > 40:
        return r
    T.I0_RULE[0] = 1
    T.reset_memo()
    try:
        d2 = T._subst(d, {}, {}, set(d.deps), {})
        if is_zero(d2, Budget(secs / 2)) is True:
            return True
    except (TooBig, RecursionError):
        pass
    finally:
        T.I0_RULE[0] = 0
        T.reset_memo()
    return r
