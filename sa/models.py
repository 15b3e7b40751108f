"""Models of Python built-ins, numpy / jax.numpy / jax operations over abstract values."""
import ast
import math
import string as _string
from fractions import Fraction as F

from . import terms as T
from .terms import *
from .fold import fold
from .values import *
from .absint import tracer, DKey, Env, MAX_UNROLL, PyRaise, Unsupported, exc_match, EXC_PARENT, _Break, _Continue

REG = {}
import builtins as _b

builtins_getattr, builtins_hasattr = _b.getattr, _b.hasattr


def model(*names):
    def d(f):
        for n in names:
            REG[n] = f
        return f

    return d


# ================================================================ helpers


def isnum(v):
    return isinstance(v, (int, F)) and not isinstance(v, bool)


def tonum(v):
    """a host value used as a number: a symbol named by its structure"""
    if isinstance(v, Op):
        t = sym("op:" + repr(v))
        OPSYM[("op:" + repr(v))] = v
        return scalar(t, "f")
    return v


OPSYM = {}


def asarr(v, I=None):
    if isinstance(v, HObj):
        return hook(I, v, "h_arr")
    if isinstance(v, Arr):
        return v
    if isinstance(v, bool):
        return scalar(num(int(v)), "b")
    if isinstance(v, int):
        return scalar(num(v), "i")
    if isinstance(v, F):
        return scalar(num(v), "f")
    if isinstance(v, Term):
        return scalar(v)
    if isinstance(v, (list, tuple)):
        return from_items([asarr(x, I) for x in v])
    if isinstance(v, NTInst):
        return from_items([asarr(x, I) for x in v.vals])
    if isinstance(v, SeqVal):
        e = v.at(atom_term(ax(0, v.size)))
        e = asarr(e, I)
        var = idx_atom(fresh_name("sv"), v.size)
        e = asarr(v.at(atom_term(var)), I)
        return add_axis(e, 0, v.size, var)
    if isinstance(v, Op):
        if v.name in ("emptylist",):
            return Arr((0,), ZERO_T)
        return tonum(v)
    if v is None:
        raise PyRaise("TypeError", ("None used as array",), I.loc if I else None)
    raise Unsupported("array from %r" % (v,), I.loc if I else None)


def add_axis(e, pos, size, var):
    """new axis at position pos (from left) whose index is var"""
    size = lift(size)
    nd = e.ndim + 1
    shape = list(e.shape)
    shape.insert(pos, size)
    mp = {}
    # axes left of pos shift by one from the right
    for j in range(e.ndim):
        r = e.ndim - 1 - j
        if j < pos:
            mp[ax(r, e.shape[j])] = atom_term(ax(r + 1, e.shape[j]))
    mp[var] = ZERO_T if size is ONE_T else atom_term(ax(nd - 1 - pos, size))
    return Arr(shape, subst(e.body, mp), e.dtype, e.lib)


def select_items(items, i):
    """term of list element i (Term)"""
    c = i.const()
    n = len(items)
    if c is not None:
        return items[int(c)]
    r = items[0]
    for k in range(1, n):
        r = r + ind(i - (k - 1)) * (items[k] - items[k - 1])
    return r


def from_items(items, axis=0):
    if not items:
        return Arr((0,), ZERO_T)
    shp = items[0].shape
    items = [broadcast_to(x, shp) if x.shape != shp else x for x in items]
    dt = items[0].dtype
    for x in items[1:]:
        dt = promote(dt, x.dtype)
    n = len(items)
    v = idx_atom(fresh_name("it"), num(n))
    body = select_items([x.body for x in items], atom_term(v))
    if n == 1:
        body = items[0].body
    a = add_axis(Arr(shp, body, dt, "jnp"), axis, num(n), v)
    return a


def promote(a, b):
    if a == "c" or b == "c":
        return "c"
    if a == "f" or b == "f":
        return "f"
    if a.startswith("p"):
        return a
    if b.startswith("p"):
        return b
    if a == "i" or b == "i":
        return "i"
    return "b"


def lib2(a, b):
    if isinstance(a, Arr) and a.ndim and isinstance(b, Arr) and b.ndim:
        return "jnp" if "jnp" in (a.lib, b.lib) else a.lib
    if isinstance(a, Arr) and a.ndim:
        return a.lib
    return b.lib if isinstance(b, Arr) else "jnp"


def bshape(sa, sb):
    n = max(len(sa), len(sb))
    sa = (ONE_T,) * (n - len(sa)) + tuple(sa)
    sb = (ONE_T,) * (n - len(sb)) + tuple(sb)
    out = []
    for x, y in zip(sa, sb):
        if x is y:
            out.append(x)
        elif x is ONE_T:
            out.append(y)
        elif y is ONE_T:
            out.append(x)
        else:
            raise ShapeError("cannot broadcast %s with %s" % (show(x), show(y)))
    return tuple(out)


def broadcast_to(a, shape):
    shape = tuple(lift(s) for s in shape)
    if bshape(a.shape, shape) != shape:
        raise ShapeError("cannot broadcast %s to %s" % (a.shape, shape))
    return Arr(shape, a.body, a.dtype, a.lib)


def ew(f, *args, dtype=None):
    """elementwise"""
    args = [asarr(a) for a in args]
    shape = ()
    for a in args:
        shape = bshape(shape, a.shape)
    dt = dtype
    if dt is None:
        dt = args[0].dtype
        for a in args[1:]:
            dt = promote(dt, a.dtype)
    lib = "jnp"
    arrs = [a for a in args if a.ndim]
    if arrs and all(a.lib == "np" for a in arrs):
        lib = "np"
    return Arr(shape, fold(f(*[a.body for a in args])), dt, lib)


def iconst(v, I=None):
    """concrete int or None"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, F) and v.denominator == 1:
        return int(v)
    if isinstance(v, Term):
        c = v.const()
        return int(c) if c is not None and c.denominator == 1 else None
    if isinstance(v, Arr) and v.shape == ():
        c = v.body.const()
        return int(c) if c is not None and c.denominator == 1 else None
    return None


def iterm(v):
    """integer Term"""
    if isinstance(v, Arr) and v.shape == ():
        return v.body
    if isinstance(v, Op):
        return tonum(v).body
    return lift(v)


def normalize_axis(axis, nd):
    a = iconst(axis)
    if a is None:
        raise Unsupported("symbolic axis")
    if a < 0:
        a += nd
    if a < 0 or a >= nd:
        raise ShapeError("axis %s out of range for %s dimensions" % (axis, nd))
    return a


# ================================================================ operators

OPS = {
    "Add": "add",
    "Sub": "subtract",
    "Mult": "multiply",
    "Div": "divide",
    "Pow": "power",
}


def arr_pow(a, b):
    return ew(lambda x, y: pow_term(x, y), a, b)


def hook(I, o, name, *a):
    f = builtins_getattr(o, name, None)
    if f is None:
        raise Unsupported("%s of %s" % (name[2:], type(o).__name__), I.loc)
    return f(I, *a)


def binop(I, op, a, b):
    if isinstance(a, HObj) or isinstance(b, HObj):
        h = a if isinstance(a, HObj) else b
        if builtins_hasattr(h, "h_binop"):
            return h.h_binop(I, op, a, b)
        if isinstance(a, HObj):
            a = hook(I, a, "h_arr")
        if isinstance(b, HObj):
            b = hook(I, b, "h_arr")
    if isinstance(a, (int, F)) and isinstance(b, (int, F)):
        return num_binop(I, op, a, b)
    if isinstance(a, str) and op == "Mod":
        if isinstance(b, (str, int)) or (isinstance(b, tuple) and all(isinstance(x, (str, int)) for x in b)):
            return a % b
        return Op("fstr", a, b)
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)) and op == "Add":
        return a + b
    if isinstance(a, str) and isinstance(b, int) and op == "Mult":
        return a * b
    if op == "Add" and isinstance(a, list) and isinstance(b, list):
        return a + b
    if op == "Add" and isinstance(a, (tuple, NTInst)) and isinstance(b, (tuple, NTInst)):
        return tuple(iterate(I, a)) + tuple(iterate(I, b))
    if op == "Mult" and isinstance(a, (list, tuple)) and isinstance(b, int):
        return a * b
    if op == "Mult" and isinstance(b, (list, tuple)) and isinstance(a, int):
        return b * a
    if isinstance(a, dict) and isinstance(b, dict) and op == "BitOr":
        return {**a, **b}
    if isinstance(a, SetVal) or isinstance(b, SetVal):
        return Op("set-" + op, a, b)
    if isinstance(a, Op) or isinstance(b, Op):
        o = b if isinstance(a, Op) else a
        if op == "Div" and isinstance(a, Op) and (isinstance(b, str) or is_pathlike(a)):
            return path_join(a, b)
        if isinstance(o, (str, bytes)) or op == "Mod" or (is_strlike(a) or is_strlike(b)):
            return Op("strop:" + op, a, b)
        if isinstance(o, (list, tuple, dict)) and not isinstance(o, Op):
            return Op("op:" + op, a, b)
        a, b = tonum(a), tonum(b)
    if isinstance(a, (Arr, int, F, bool, SeqVal)) and isinstance(b, (Arr, int, F, bool, SeqVal)):
        return arr_binop(I, op, a, b)
    if isinstance(a, (list, tuple, NTInst)) and isinstance(b, Arr):
        return arr_binop(I, op, asarr(a), b)
    if isinstance(b, (list, tuple, NTInst)) and isinstance(a, Arr):
        return arr_binop(I, op, a, asarr(b))
    if (isinstance(a, KeyVal) or isinstance(b, KeyVal)):
        raise Unsupported("arithmetic on PRNG key", I.loc)
    raise PyRaise("TypeError", ("unsupported operand %s: %r, %r" % (op, a, b),), I.loc)


def path_join(a, *bs):
    """canonical path value: join(base, part, part, ...)"""
    if isinstance(a, Op) and a.name == "join":
        parts = list(a.args)
    elif isinstance(a, str):
        parts = [a.rstrip("/") if a != "/" else a]
    else:
        parts = [a]
    for b in bs:
        if isinstance(b, str):
            if b.startswith("/"):
                parts = [b]
            else:
                parts.extend(x for x in b.split("/") if x not in ("", "."))
        elif isinstance(b, Op) and b.name == "join":
            x = b.args[0] if b.args else ""
            absolute = (isinstance(x, Op) and x.name == "ROOT") or (isinstance(x, str) and x.startswith("/"))
            parts = list(b.args) if absolute else parts + list(b.args)
        elif isinstance(b, Op) and b.name == "ROOT":
            parts = [b]
        else:
            parts.append(b)
    return Op("join", *parts)


def path_str(v):
    """plain strings stay strings when every part is known"""
    if isinstance(v, Op) and v.name == "join" and all(isinstance(x, str) for x in v.args):
        return "/".join(v.args)
    return v


def path_parent(v):
    v = v if isinstance(v, Op) and v.name == "join" else path_join(v)
    if len(v.args) > 1:
        return Op("join", *v.args[:-1])
    return Op("join", Op("dirname", *v.args))


def is_pathlike(v):
    return isinstance(v, Op) and v.name == "join"


def is_strlike(v):
    return isinstance(v, Op) and (v.name in ("join", "fstr", "dirname", "environ", "strip", "replace", "decode") or v.name.startswith("strop:"))


def num_binop(I, op, a, b):
    a2, b2 = a, b
    if op == "Add":
        return a + b
    if op == "Sub":
        return a - b
    if op == "Mult":
        return a * b
    if op == "Div":
        if b == 0:
            raise PyRaise("ZeroDivisionError", (), I.loc)
        return F(a) / F(b)
    if op == "FloorDiv":
        if b == 0:
            raise PyRaise("ZeroDivisionError", (), I.loc)
        r = a // b
        return F(r) if isinstance(a, F) or isinstance(b, F) else r
    if op == "Mod":
        return a % b
    if op == "Pow":
        if isinstance(b, int) and not isinstance(b, bool):
            if isinstance(a, int):
                return a**b if b >= 0 else F(a) ** b
            return a**b
        if F(b).denominator == 1:
            r = F(a) ** int(b)
            return r
        return scalar(pow_term(num(a), num(b)))
    if op == "BitOr":
        return a | b
    if op == "BitAnd":
        return a & b
    if op == "BitXor":
        return a ^ b
    if op == "LShift":
        return a << b
    if op == "RShift":
        return a >> b
    raise Unsupported("operator " + op, I.loc)


def arr_binop(I, op, a, b):
    a, b = asarr(a, I), asarr(b, I)
    if op == "Add":
        return ew(add, a, b)
    if op == "Sub":
        return ew(lambda x, y: x - y, a, b)
    if op == "Mult":
        return ew(mul, a, b)
    if op == "Div":
        return ew(lambda x, y: x / y, a, b, dtype="f")
    if op == "Pow":
        return arr_pow(a, b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if a.dtype != "b" or b.dtype != "b":
            if a.dtype == "b" or b.dtype == "b" or True:
                raise Unsupported("bitwise operator on non-boolean arrays", I.loc)
        if op == "BitAnd":
            return ew(band, a, b, dtype="b")
        if op == "BitOr":
            return ew(bor, a, b, dtype="b")
        return ew(lambda x, y: x + y - 2 * x * y, a, b, dtype="b")
    if op == "MatMult":
        return np_matmul(I, a, b)
    if op in ("FloorDiv", "Mod"):
        ca, cb = iconst(a), iconst(b)
        if ca is not None and cb:
            return ca // cb if op == "FloorDiv" else ca % cb
        name = "floordiv" if op == "FloorDiv" else "mod"
        return ew(lambda x, y: fn(name, x, y, opaque=True), a, b)
    raise Unsupported("operator " + op, I.loc)


CMP = {"Gt": gt, "Lt": lt, "GtE": ge, "LtE": le, "Eq": lambda a, b: eqz(a - b), "NotEq": lambda a, b: ONE_T - eqz(a - b)}
PYCMP = {
    "Gt": lambda a, b: a > b,
    "Lt": lambda a, b: a < b,
    "GtE": lambda a, b: a >= b,
    "LtE": lambda a, b: a <= b,
    "Eq": lambda a, b: a == b,
    "NotEq": lambda a, b: a != b,
}


def same(a, b):
    return vkey(a) == vkey(b)


def compare(I, op, a, b):
    if (isinstance(a, HObj) or isinstance(b, HObj)) and op not in ("Is", "IsNot", "In", "NotIn"):
        h = a if isinstance(a, HObj) else b
        if a is None or b is None:
            return op == "NotEq"
        return hook(I, h, "h_compare", op, a, b)
    if op in ("Is", "IsNot"):
        if a is None or b is None:
            if isinstance(a, Op) or isinstance(b, Op):
                o = a if isinstance(a, Op) else b
                if o.name.startswith("arg:"):
                    r = Op("isnone", o)
                    return r if op == "Is" else Op("not", r)
                r = False
            else:
                r = a is None and b is None
        elif isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Op) or isinstance(b, Op):
                o, c = (a, b) if isinstance(a, Op) else (b, a)
                r = o if c else Op("not", o)
                return r if op == "Is" else I.unop("Not", r)
            r = a is b
        else:
            r = a is b or (isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name)
            if not r and isinstance(a, Op) and isinstance(b, Op):
                r = same(a, b)
        return r if op == "Is" else not r
    if op in ("In", "NotIn"):
        r = contains(I, a, b)
        return r if op == "In" else I.unop("Not", r)
    if isinstance(a, (int, F, str, bytes)) and isinstance(b, (int, F, str, bytes)) :
        if isinstance(a, (str, bytes)) != isinstance(b, (str, bytes)):
            if op == "Eq":
                return False
            if op == "NotEq":
                return True
            raise PyRaise("TypeError", (), I.loc)
        return PYCMP[op](a, b)
    if a is None or b is None:
        r = a is None and b is None
        if isinstance(a, (Op,)) or isinstance(b, Op):
            return compare(I, "Is" if op == "Eq" else "IsNot", a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            r = False
        return r if op == "Eq" else not r
    if isinstance(a, Op) or isinstance(b, Op):
        if isinstance(a, (str, bytes, list, tuple, dict)) or isinstance(b, (str, bytes, list, tuple, dict)) or (
            isinstance(a, Op) and isinstance(b, Op) and (is_strlike(a) or is_strlike(b))
        ):
            if op in ("Eq", "NotEq"):
                if same(a, b):
                    return op == "Eq"
                r = Op("==", *sorted((a, b), key=lambda v: repr(vkey(v))))
                return r if op == "Eq" else Op("not", r)
            return Op("cmp:" + op, a, b)
        if isinstance(a, Op) and isinstance(b, Op) and a.name == "dtype" and b.name == "dtype":
            r = same(a, b)
            return r if op == "Eq" else not r
        a, b = tonum(a), tonum(b)
    if isinstance(a, (list, tuple, NTInst, dict)) and isinstance(b, (list, tuple, NTInst, dict)):
        if op in ("Eq", "NotEq"):
            r = vkey(tuple(iterate(I, a)) if not isinstance(a, dict) else a) == vkey(
                tuple(iterate(I, b)) if not isinstance(b, dict) else b
            )
            return r if op == "Eq" else not r
        if all(isinstance(x, int) for x in list(a) + list(b)):
            return PYCMP[op](list(a), list(b))
    if isinstance(a, (Arr, int, F, SeqVal)) and isinstance(b, (Arr, int, F, SeqVal)):
        return ew(CMP[op], a, b, dtype="b")
    if isinstance(a, Arr) and isinstance(b, (list, tuple)):
        return ew(CMP[op], a, asarr(b), dtype="b")
    if op in ("Eq", "NotEq"):
        r = same(a, b)
        return r if op == "Eq" else not r
    raise Unsupported("comparison %s of %r and %r" % (op, a, b), I.loc)


def contains(I, a, b):
    if isinstance(b, HObj):
        return hook(I, b, "h_contains", a)
    if isinstance(b, (str, bytes)) and isinstance(a, (str, bytes)):
        return a in b
    if isinstance(b, dict):
        return (a if isinstance(a, (int, str, F, tuple, type(None))) else DKey(a)) in b
    if isinstance(b, (list, tuple, SetVal)):
        items = b.items if isinstance(b, SetVal) else b
        if any(same(a, x) for x in items):
            return True
        if isinstance(a, (int, F, str)) and all(isinstance(x, (int, F, str)) for x in items):
            return False
        return Op("in", a, b)
    if isinstance(b, Op):
        return Op("in", a, b)
    raise Unsupported("membership in %r" % (b,), I.loc)


class SetVal:
    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return "set(%r)" % (self.items,)


def mkset(items):
    out = []
    for x in items:
        if not any(same(x, y) for y in out):
            out.append(x)
    return SetVal(out)


# ================================================================ iteration


def iterate(I, v):
    if isinstance(v, HObj):
        return list(hook(I, v, "h_iter"))
    if isinstance(v, (list, tuple)):
        return list(v)
    if isinstance(v, NTInst):
        return list(v.vals)
    if isinstance(v, dict):
        return [k.v if isinstance(k, DKey) else k for k in v]
    if isinstance(v, str):
        return list(v)
    if isinstance(v, SetVal):
        I.event("set-iteration")
        return list(v.items)
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyRaise("TypeError", ("iteration over a 0-d array",), I.loc)
        n = v.shape[0].const()
        if n is None:
            raise Unsupported("iteration over symbolic-length array", I.loc)
        if n > MAX_UNROLL:
            raise Unsupported("iteration over long array", I.loc)
        return [take(v, 0, num(k)) for k in range(int(n))]
    if isinstance(v, KeyVal):
        return [KeyVal(v.path + (("item", k),)) for k in range(2)]
    if isinstance(v, KeyArr):
        return [v.item(k) for k in range(v.n)]
    if isinstance(v, SeqVal):
        n = v.size.const()
        if n is not None and n <= MAX_UNROLL:
            return [v.at(num(k)) for k in range(int(n))]
        raise Unsupported("iteration over symbolic-length sequence", I.loc)
    raise Unsupported("iteration over %r" % (v,), I.loc)


def take(a, j, i):
    """a[..., i at axis j, ...]"""
    nd = a.ndim
    shape = a.shape[:j] + a.shape[j + 1 :]
    mp = {ax(nd - 1 - j, a.shape[j]): lift(i)}
    for k in range(j):
        r = nd - 1 - k
        mp[ax(r, a.shape[k])] = atom_term(ax(r - 1, a.shape[k]))
    r = Arr(shape, subst(a.body, mp), a.dtype, a.lib)
    return r


def symbolic_for(I, st, it, env, mod):
    """for over a symbolic-length sequence.  Supported: the body appends one
    element per iteration to lists, or stores element i of an array."""
    if isinstance(it, Arr) and it.ndim and it.shape[0].const() is None:
        var = idx_atom(fresh_name("fi"), it.shape[0])
        elem = take(it, 0, atom_term(var))
        return for_generic(I, st, elem, var, it.shape[0], env, mod)
    if isinstance(it, SeqVal) and it.size.const() is None:
        var = idx_atom(fresh_name("fi"), it.size)
        elem = it.at(atom_term(var))
        return for_generic(I, st, elem, var, it.size, env, mod)
    if isinstance(it, Op):
        # host sequence of unknown length: one generic iteration, recorded
        n = sym("op:len(%r)" % (it,))
        elem = Op("elem", it)
        I.event("loop", over=it)
        for_host(I, st, elem, it, env, mod)
        return True
    return False


class LoopList:
    pass


def for_generic(I, st, elem, var, size, env, mod):
    names = assigned_names(st.body)
    before = {n: env.vars.get(n) for n in names if n in env.vars}
    lists = {n: v for n, v in all_lists(env, mod).items()}
    snap = {n: len(v) for n, v in lists.items()}
    arrs = {n: v for n, v in env.vars.items() if isinstance(v, Arr) and v.lib == "np"}
    asnap = {n: v.body for n, v in arrs.items()}
    # loop-carried scalars get a placeholder; if the result does not depend on it the
    # iteration is independent of the previous one
    carried = read_before_write(st.body, set(before))
    ph = {}
    for n in carried:
        v = before[n]
        if isinstance(v, (int, F)) or (isinstance(v, Arr)):
            a = asarr(v)
            s = fn("carry:%s:%d" % (n, fresh_name()[1]), *[atom_term(a.axvar(j)) for j in range(a.ndim)])
            ph[n] = (v, s, a)
            env.vars[n] = Arr(a.shape, s, a.dtype, a.lib)
    I.assign(st.target, elem, env, mod)
    try:
        I.exec_block(st.body, env, mod)
    except (_Break, _Continue):
        raise Unsupported("break/continue in symbolic loop", I.loc)
    # appended lists
    for n, v in lists.items():
        k = len(v) - snap[n]
        if k == 0:
            continue
        if k == 1 and snap[n] == 0:
            x = v.pop()
            env_set(env, n, seq_from(x, var, size), v)
        else:
            raise Unsupported("list growth in symbolic loop", I.loc)
    # array stores
    for n, a in arrs.items():
        if env.vars.get(n) is a and a.body is not asnap[n]:
            a.body = forall_store(I, asnap[n], a.body, var, size, a)
    # carried scalars: accumulation c + g(i)
    for n, (v0, s, a0) in ph.items():
        new = env.vars[n]
        if not isinstance(new, Arr):
            if isinstance(new, (int, F)):
                continue
            raise Unsupported("loop-carried value " + n, I.loc)
        satom = list(dict(s.monos))[0][0][0]
        if new.body is s:
            env.vars[n] = v0
            continue
        delta = new.body - s
        if satom in atoms_in(delta):
            raise Unsupported("loop-carried value " + n, I.loc)
        tot = mk_sum(var, size, delta)
        env.vars[n] = Arr(new.shape, a0.body + tot, promote(a0.dtype, new.dtype), new.lib)
    for n in names:
        v = env.vars.get(n)
        if n in ph or v is None:
            continue
        if isinstance(v, Arr) and var in v.body.deps and not (n in arrs and v is arrs[n]):
            # value of the last iteration
            env.vars[n] = Arr(v.shape, subst(v.body, {var: lift(size) - 1}), v.dtype, v.lib)
    return True


def forall_store(I, old, new, var, size, arr):
    """new = old with guards on var: a store at element var for every var"""
    # guards of the form [A == var] ; instantiate var := axis index when linear
    for j in range(arr.ndim):
        A = arr.axvar(j)
        At = atom_term(A)
        eqg = eqz(At - atom_term(var))
        inst = subst(new, {var: At})
        if var in inst.deps:
            continue
        # outside the stored row the old value must remain
        other = new
        # evaluate new at A != var: set guard [A==var] = 0
        sub0 = new - eqg * (inst_val(new, var, A) - old)
        if is_same(sub0, old):
            cover = arr.shape[j] is lift(size)
            if cover:
                return inst
            return where(lt(At, lift(size)), inst, old)
    raise Unsupported("array store in symbolic loop", I.loc)


def inst_val(new, var, A):
    return subst(new, {var: atom_term(A)})


def is_same(a, b):
    from .equiv import equal

    return a is b or equal(a, b, 5) is True


def for_host(I, st, elem, it, env, mod):
    lists = {n: v for n, v in all_lists(env, mod).items()}
    snap = {n: len(v) for n, v in lists.items()}
    dicts = {n: v for n, v in env.vars.items() if isinstance(v, dict)}
    I.assign(st.target, elem, env, mod)
    try:
        I.exec_block(st.body, env, mod)
    except _Continue:
        pass
    except _Break:
        raise Unsupported("break in loop over host sequence", I.loc)
    for n, v in lists.items():
        k = len(v) - snap[n]
        if k == 0:
            continue
        if k == 1 and snap[n] == 0:
            x = v.pop()
            env_set(env, n, Op("map", x, it), v)
        else:
            raise Unsupported("list growth in loop over host sequence", I.loc)
    for n, v in dicts.items():
        for k in list(v):
            if isinstance(k, DKey) and mentions(k.v, elem):
                val = v.pop(k)
                v["**each"] = Op("mapitems", k.v, val, it)


def mentions(v, e):
    if isinstance(v, Op):
        if same(v, e):
            return True
        return any(mentions(a, e) for a in v.args)
    if isinstance(v, (list, tuple)):
        return any(mentions(a, e) for a in v)
    return False


def env_set(env, n, new, old):
    for e in chain(env):
        for k, v in e.vars.items():
            if v is old:
                e.vars[k] = new


def chain(env):
    while env is not None:
        yield env
        env = env.parent


def all_lists(env, mod):
    out = {}
    for e in chain(env):
        for k, v in e.vars.items():
            if isinstance(v, list):
                out.setdefault(k, v)
    return out


def seq_from(x, var, size):
    def at(i, x=x):
        return subst_val(x, var, lift(i))

    return SeqVal(lift(size), at)


def subst_val(x, var, i):
    if isinstance(x, Arr):
        return Arr(tuple(subst(s, {var: i}) for s in x.shape), subst(x.body, {var: i}), x.dtype, x.lib)
    if isinstance(x, (list, tuple)):
        return type(x)(subst_val(y, var, i) for y in x)
    if isinstance(x, NTInst):
        return NTInst(x.cls, [subst_val(y, var, i) for y in x.vals])
    return x


def assigned_names(body):
    s = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                s.add(n.id)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                s.add(n.target.id)
    return s


def read_before_write(body, names):
    """names possibly read before being written in the block (textual order)"""
    out = []
    written = set()
    for b in body:
        loads = [n.id for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)]
        aug = [n.target.id for n in ast.walk(b) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)]
        for n in loads + aug:
            if n in names and n not in written and n not in out:
                out.append(n)
        written |= assigned_names([b])
    return [n for n in out if n in assigned_names(body)]


def symbolic_comp(I, e, env, mod):
    if len(e.generators) != 1:
        return None
    g = e.generators[0]
    if True:
        save_n = None
        it = I.eval(g.iter, env, mod)
    if isinstance(it, Arr) and it.ndim and it.shape[0].const() is None:
        size = it.shape[0]
        var = idx_atom(fresh_name("lc"), size)
        elem = take(it, 0, atom_term(var))
    elif isinstance(it, SeqVal) and it.size.const() is None:
        size = it.size
        var = idx_atom(fresh_name("lc"), size)
        elem = it.at(atom_term(var))
    elif isinstance(it, Op):
        e2 = Env(env, env.globals_, env.func)
        elem = Op("elem", it)
        if it.name == "map":
            elem = it.args[0]
            it = it.args[1]
        elif it.name == "zip":
            elem = tuple(Op("elem", a) if isinstance(a, Op) else a for a in it.args)
        I.assign(g.target, elem, e2, mod)
        conds = [I.eval(c, e2, mod) for c in g.ifs]
        v = I.eval(e.elt, e2, mod)
        if conds:
            return Op("mapif", v, it, *conds)
        return Op("map", v, it)
    else:
        out = []
        for x in iterate(I, it):
            e2 = Env(env, env.globals_, env.func)
            I.assign(g.target, x, e2, mod)
            if all(I.truth(I.eval(c, e2, mod)) for c in g.ifs):
                out.append(I.eval(e.elt, e2, mod))
        return out
    if g.ifs:
        raise Unsupported("filtered comprehension over symbolic sequence", I.loc)
    e2 = Env(env, env.globals_, env.func)
    I.assign(g.target, elem, e2, mod)
    return seq_from(I.eval(e.elt, e2, mod), var, size)


def symbolic_while(I, st, env, mod):
    """while on a host condition: havoc the assigned names, run the body once"""
    I.event("while", cond=None)
    names = assigned_names(st.body)
    try:
        I.exec_block(st.body, env, mod)
    except (_Break, _Continue):
        pass
    for n in names:
        env.vars[n] = Op("havoc", n)
    for n in ast.walk(st):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            if n.func.attr in ("add", "append", "update", "extend"):
                v = env.vars.get(n.func.value.id)
                if isinstance(v, (SetVal, list)):
                    env.vars[n.func.value.id] = Op("havoc", n.func.value.id)
    return True


# ================================================================ indexing


def full_slice(s):
    return isinstance(s, slice) and s.start is None and s.stop is None and s.step is None


def parse_index(I, a, ix):
    """-> list of (kind, ...) per result/array axis"""
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = list(ix)
    n_real = 0
    for x in ix:
        if x is None or x is Ellipsis:
            continue
        if isinstance(x, Arr) and x.dtype == "b" and x.ndim:
            n_real += x.ndim
        else:
            n_real += 1
    if any(x is Ellipsis for x in ix):
        k = [i for i, x in enumerate(ix) if x is Ellipsis][0]
        ix = ix[:k] + [slice(None)] * (a.ndim - n_real) + ix[k + 1 :]
    else:
        ix = ix + [slice(None)] * (a.ndim - n_real)
    out = []
    j = 0
    for x in ix:
        if x is None:
            out.append(("new",))
            continue
        if j >= a.ndim:
            raise ShapeError("too many indices for array of %d dimensions" % a.ndim)
        size = a.shape[j]
        if isinstance(x, slice):
            out.append(("slice", j) + slice_bounds(I, x, size))
        elif isinstance(x, (list, tuple)) :
            out.append(("arr", j, asarr(x, I)))
        elif isinstance(x, Arr) and x.ndim:
            if x.dtype == "b":
                raise Unsupported("boolean mask indexing", I.loc)
            out.append(("arr", j, x))
        elif isinstance(x, SeqVal):
            out.append(("arr", j, asarr(x, I)))
        elif isinstance(x, bool):
            raise Unsupported("boolean index", I.loc)
        else:
            t = iterm(x)
            c = t.const()
            if c is not None and c < 0:
                t = size + t
                c = t.const()
            elif isinstance(x, Arr) or isinstance(x, Op):
                pass
            sc = size.const()
            if c is not None and sc is not None and not (0 <= c < sc):
                raise PyRaise("IndexError", ("index %s out of bounds for size %s" % (c, sc),), I.loc)
            if int_like(t) and not t.is_const():
                lo, hi = lin_bounds(t)
                if hi is not None and hi < 0:
                    t = size + t
            out.append(("int", j, t))
        j += 1
    return out


def slice_bounds(I, s, size):
    step = 1 if s.step is None else iconst(s.step)
    if step is None:
        raise Unsupported("symbolic slice step", I.loc)

    def norm(v, default):
        if v is None:
            return default
        t = iterm(v)
        c = t.const()
        if c is not None and c < 0:
            t = size + t
            c2 = t.const()
            if c2 is not None and c2 < 0:
                t = ZERO_T
        elif not t.is_const() and int_like(t):
            lo, hi = lin_bounds(t)
            if hi is not None and hi < 0:
                t = size + t
        sc = size.const()
        c = t.const()
        if c is not None and sc is not None and c > sc:
            t = size
        return t

    if step > 0:
        st = norm(s.start, ZERO_T)
        en = norm(s.stop, size)
        if step == 1:
            ln_ = en - st
            lo = lin_bounds(ln_)[1] if int_like(ln_) else None
            if lo is not None and lo < 0:
                ln_ = ZERO_T
            return st, ln_, 1
        L = en - st
        c = L.const()
        if c is not None:
            return st, num(max(0, -(-int(c) // step))), step
        return st, fn("ceildiv", L, num(step), opaque=True), step
    if step == -1:
        st = norm(s.start, size - 1)
        if s.stop is None:
            ln_ = st + 1
        else:
            ln_ = st - norm(s.stop, ZERO_T)
        return st, ln_, -1
    c = size.const()
    st = norm(s.start, size - 1)
    if s.stop is None and st.const() is not None:
        return st, num((int(st.const()) // -step) + 1), step
    raise Unsupported("slice step %s" % step, I.loc)


def get_index(I, a, ix):
    spec = parse_index(I, a, ix)
    # result shape
    arrs = [s for s in spec if s[0] == "arr"]
    shape = []
    place = []  # per result dim: what it is
    ashape = ()
    for s in arrs:
        ashape = bshape(ashape, s[2].shape)
    apos = None
    if arrs:
        kinds = [s[0] for s in spec]
        first = kinds.index("arr")
        last = len(kinds) - 1 - kinds[::-1].index("arr")
        contiguous = all(k in ("arr", "int") for k in kinds[first : last + 1])
        if not contiguous or ("int" in kinds and not contiguous):
            raise Unsupported("non-contiguous advanced indexing", I.loc)
    for s in spec:
        if s[0] == "new":
            shape.append(ONE_T)
        elif s[0] == "slice":
            shape.append(s[3])
        elif s[0] == "arr":
            if apos is None:
                apos = len(shape)
                shape.extend(ashape)
    na = len(ashape)

    def f(idx):
        out = [None] * a.ndim
        p = 0
        done = False
        for s in spec:
            if s[0] == "new":
                p += 1
            elif s[0] == "slice":
                i = idx[p]
                p += 1
                out[s[1]] = s[2] + i if s[4] == 1 else s[2] + i * s[4]
            elif s[0] == "int":
                out[s[1]] = s[2]
            elif s[0] == "arr":
                if not done:
                    p += na
                    done = True
                sub = idx[apos : apos + na]
                ia = s[2]
                t = ia.at([ZERO_T if z is ONE_T else q for q, z in zip(sub[na - ia.ndim :], ia.shape)])
                c = t.const()
                if c is not None and c < 0:
                    t = a.shape[s[1]] + t
                out[s[1]] = t
        return a.at(out)

    r = mk(shape, f, a.dtype, a.lib)
    if not shape and a.lib == "np":
        pass
    if all(s[0] == "slice" or s[0] == "new" or s[0] == "int" and shape for s in spec):
        r.src = a.src  # a view of the same memory
        if a.lib == "np":
            r.meta = (a, ix)
    return r


def set_index(I, a, ix, v, op):
    spec = parse_index(I, a, ix)
    v = asarr(v, I)
    if op == "set" and a.dtype != v.dtype and not (v.dtype in ("i", "b") and a.dtype != "b") and not (a.dtype == "f"):
        I.event("narrow-store", buffer=a.dtype, value=v.dtype)
    rshape = []
    for s in spec:
        if s[0] == "new":
            raise Unsupported("newaxis in assignment", I.loc)
        if s[0] == "slice":
            rshape.append(s[3])
        if s[0] == "arr":
            raise Unsupported("advanced-index assignment", I.loc)
    if bshape(v.shape, tuple(rshape)) != tuple(rshape):
        raise ShapeError("cannot store shape %s into %s" % (v.shape, tuple(rshape)))
    nd = a.ndim
    axs = [ZERO_T if a.shape[j] is ONE_T else atom_term(ax(nd - 1 - j, a.shape[j])) for j in range(nd)]
    guard = ONE_T
    vidx = []
    for s in spec:
        j = s[1]
        A = axs[j]
        if s[0] == "int":
            guard = guard * eqz(A - s[2])
        else:
            st, ln_, step = s[2:5]
            if step == 1:
                guard = guard * ge(A, st) * lt(A, st + ln_)
                vidx.append(A - st)
            elif step == -1:
                guard = guard * le(A, st) * gt(A, st - ln_)
                vidx.append(st - A)
            else:
                raise Unsupported("strided assignment", I.loc)
    vv = v.at([ZERO_T if z is ONE_T else q for q, z in zip(vidx[len(vidx) - v.ndim :], v.shape)])
    cur = a.body
    if op == "set":
        new = vv
    elif op == "add":
        new = cur + vv
    elif op in ("multiply", "mul"):
        new = cur * vv
    elif op in ("subtract",):
        new = cur - vv
    elif op in ("divide",):
        new = cur / vv
    elif op == "max":
        new = tmax(cur, vv)
    elif op == "min":
        new = tmin(cur, vv)
    elif op == "power":
        new = pow_term(cur, vv)
    else:
        raise Unsupported("at[]." + op, I.loc)
    dt = a.dtype if op == "set" else promote(a.dtype, v.dtype)
    return Arr(a.shape, where(guard, new, cur), dt, a.lib)


class AtRef:
    def __init__(self, arr, ix=None):
        self.arr, self.ix = arr, ix


def getitem(I, o, ix):
    if isinstance(o, HObj):
        return hook(I, o, "h_getitem", ix)
    if isinstance(o, AtRef):
        return AtRef(o.arr, (ix,) if not isinstance(ix, tuple) else ix)
    if isinstance(o, dict):
        k = ix if isinstance(ix, (int, str, F, tuple, type(None), bool, bytes)) else DKey(ix)
        if k in o:
            return o[k]
        if "**each" in o:
            return Op("item", o["**each"], ix)
        raise PyRaise("KeyError", (ix,), I.loc)
    if isinstance(o, (list, tuple, str, NTInst)):
        seq = o.vals if isinstance(o, NTInst) else o
        if isinstance(ix, slice):
            f = lambda x: None if x is None else iconst(x)
            if any(x is not None and iconst(x) is None for x in (ix.start, ix.stop, ix.step)):
                raise Unsupported("symbolic slice of a sequence", I.loc)
            r = seq[slice(f(ix.start), f(ix.stop), f(ix.step))]
            return tuple(r) if isinstance(o, NTInst) else r
        k = iconst(ix)
        if k is None:
            if isinstance(ix, Op):
                return Op("item", o if isinstance(o, (str, tuple)) else tuple(seq), ix)
            raise Unsupported("symbolic index of a sequence", I.loc)
        try:
            return seq[k]
        except IndexError:
            raise PyRaise("IndexError", (k,), I.loc)
    if isinstance(o, Arr):
        return get_index(I, o, ix)
    if isinstance(o, SeqVal):
        if isinstance(ix, slice):
            raise Unsupported("slice of symbolic sequence", I.loc)
        t = iterm(ix)
        c = t.const()
        if c is not None and c < 0:
            t = o.size + t
        return o.at(t)
    if isinstance(o, (KeyArr,)):
        k = iconst(ix)
        return o.item(k if k is not None else ("sym", vkey(ix)))
    if isinstance(o, KeyVal):
        return KeyVal(o.path + (("item", iconst(ix)),))
    if isinstance(o, (Op, Ext)):
        return host_getitem(I, o, ix)
    raise Unsupported("subscript of %r" % (o,), I.loc)


def host_getitem(I, o, ix):
    if isinstance(o, Ext):
        o = Op(o.name)
    if I.host is not None:
        r = I.host.getitem(I, o, ix)
        if r is not NotImplemented:
            return r
    if o.name == "zip" and isinstance(ix, int):
        return Op("item", o, ix)
    return Op("item", o, IdxOp(ix))


def IdxOp(ix):
    if ix is Ellipsis:
        return "..."
    if isinstance(ix, slice):
        return ("slice", ix.start, ix.stop, ix.step)
    if isinstance(ix, tuple):
        return tuple(IdxOp(x) for x in ix)
    return ix


# ================================================================ attributes

ARR_METHODS = set(
    """sum min max mean prod cumsum reshape ravel flatten squeeze transpose swapaxes dot astype copy
    clip all any item tolist argmax argmin std var ptp round take repeat diagonal trace conj sort argsort
    cumprod searchsorted block_until_ready fill nonzero tobytes view""".split()
)


def ext_attr(I, o, name):
    full = o.name + "." + name
    if full in CONSTS:
        return CONSTS[full]()
    if full in ("os.environ",):
        if I.host is not None and builtins_hasattr(I.host, "ask"):
            from .hostworld import Environ

            return Environ(I.host)
        return Op("os.environ")
    return Ext(full)


def getattr(I, o, name):
    if isinstance(o, HObj):
        return hook(I, o, "h_getattr", name)
    if isinstance(o, Arr):
        if name == "shape":
            return tuple(dimval(s) for s in o.shape)
        if name == "size":
            n = ONE_T
            for s in o.shape:
                n = n * s
            return dimval(n)
        if name == "ndim":
            return o.ndim
        if name == "T":
            return np_transpose(I, o)
        if name == "dtype":
            return Op("dtype", o.dtype)
        if name == "at":
            return AtRef(o)
        if name in ("real",):
            return o
        if name == "flat":
            return np_ravel(I, o)
        if name in ARR_METHODS:
            return Bound(o, name)
        raise PyRaise("AttributeError", (name,), I.loc)
    if isinstance(o, AtRef):
        return Bound(o, name)
    if isinstance(o, NTInst):
        if name in o.cls.fields:
            return o.get(name)
        if name == "_fields":
            return tuple(o.cls.fields)
        if name in ("_replace", "_asdict", "index", "count"):
            return Bound(o, name)
        if isinstance(o.cls.node, ast.ClassDef):
            for s in o.cls.node.body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    f = I.make_func(s, modenv(o.cls.mod), o.cls.mod, o.cls.name + "." + name)
                    isprop = any(isinstance(d, ast.Name) and d.id == "property" for d in s.decorator_list)
                    p = Partial(f, (o,), {})
                    return I.call(p, [], {}) if isprop else p
        raise PyRaise("AttributeError", (name,), I.loc)
    if isinstance(o, NTClass):
        if name == "_fields":
            return tuple(o.fields) if isinstance(o.fields, (list, tuple)) else o.fields
        if name == "_make":
            return Bound(o, name)
        if name == "_field_defaults":
            return dict(o.defaults)
        if name in ("__name__", "__qualname__"):
            return o.name
        if name == "__doc__":
            return ""
        raise PyRaise("AttributeError", (name,), I.loc)
    if isinstance(o, (Func, Partial, VMap, JitWrap)):
        if name in o.attrs:
            return o.attrs[name]
        if name == "__name__":
            return o.name if isinstance(o, Func) else "wrapped"
        if name == "__doc__":
            return ""
        if name == "__wrapped__":
            return o.f if not isinstance(o, Func) else o
        if name in ("lower", "clear_cache", "eval_shape", "trace"):
            return Bound(o, name)
        if name in ("defjvp", "defjvps", "defvjp") and o.attrs.get("custom-derivative"):
            return Builtin(name, lambda I, *a, **k: a[0] if a else None)
        raise PyRaise("AttributeError", (name,), I.loc)
    if isinstance(o, (dict, list, str, tuple, bytes, SetVal)):
        return Bound(o, name)
    if isinstance(o, (int, F)):
        if name in ("real", "numerator"):
            return o
        if name == "dtype":
            return Op("dtype", "f" if isinstance(o, F) else "i")
        if name in ("ndim",):
            return 0
        if name == "shape":
            return ()
        if name == "size":
            return 1
        if name in ("sum", "min", "max", "mean", "item", "astype", "reshape"):
            return Bound(asarr(o), name)
        return Bound(o, name)
    if isinstance(o, SeqVal):
        return Bound(o, name)
    if isinstance(o, Op):
        return host_getattr(I, o, name)
    if isinstance(o, KeyVal):
        if name == "shape":
            return ()
    if o is None:
        raise PyRaise("AttributeError", ("None." + name,), I.loc)
    raise Unsupported("attribute %s of %r" % (name, o), I.loc)


def modenv(mod):
    e = Env(None, mod)
    e.vars = mod.env
    return e


def dimval(s):
    c = s.const()
    if c is not None and c.denominator == 1:
        return int(c)
    return Arr((), s, "i")


def host_getattr(I, o, name):
    if I.host is not None:
        r = I.host.getattr(I, o, name)
        if r is not NotImplemented:
            return r
    if is_pathlike(o):
        if name == "parent":
            return path_parent(o)
        if name == "name" and isinstance(o.args[-1], str):
            return o.args[-1]
        if name in ("resolve", "absolute", "joinpath", "exists", "is_file", "is_dir", "as_posix", "expanduser", "open", "glob", "with_name"):
            return Bound(o, name)
        if name == "parents":
            ps, q = [], o
            while len(q.args) > 1:
                q = path_parent(q)
                ps.append(q)
            return tuple(ps)
    return OpAttr(o, name)


class OpAttr(Op):
    """attribute of an opaque object; callable"""

    __slots__ = ()

    def __init__(self, o, name):
        self.name = "attr"
        self.args = (o, name)

    def __repr__(self):
        return "%r.%s" % (self.args[0], self.args[1])


# ================================================================ calls


def call(I, f, args, kwargs):
    if isinstance(f, HObj):
        return hook(I, f, "h_call", args, kwargs)
    if isinstance(f, VMap):
        return call_vmap(I, f, args, kwargs)
    if isinstance(f, JitWrap):
        return I.call(f.f, [tracer(a) for a in args], {k: tracer(v) for k, v in kwargs.items()})
    if isinstance(f, Partial):
        return I.call(f.f, list(f.args) + list(args), {**f.kwargs, **kwargs})
    if isinstance(f, Bound):
        return call_method(I, f.obj, f.name, args, kwargs)
    if isinstance(f, NTClass):
        return call_ntclass(I, f, args, kwargs)
    if isinstance(f, Builtin):
        return f.fn(I, *args, **kwargs)
    if isinstance(f, Ext):
        return call_ext(I, f.name, args, kwargs)
    if isinstance(f, Op):
        return host_call(I, f, args, kwargs)
    if isinstance(f, DerivFn):
        return f(I, *args, **kwargs)
    raise PyRaise("TypeError", ("%r is not callable" % (f,),), I.loc)


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class DerivFn:
    pass


def call_ntclass(I, c, args, kwargs):
    if isinstance(c.fields, Op):
        return Op("ntinst", c.name, c.fields, tuple(args), DictOp(kwargs))
    vals = {}
    if len(args) > len(c.fields):
        raise PyRaise("TypeError", ("too many fields for " + c.name,), I.loc)
    for f, v in zip(c.fields, args):
        vals[f] = v
    for k, v in kwargs.items():
        if k not in c.fields or k in vals:
            raise PyRaise("TypeError", ("field %s of %s" % (k, c.name),), I.loc)
        vals[k] = v
    for f in c.fields:
        if f not in vals:
            if f in c.defaults:
                vals[f] = c.defaults[f]
            else:
                raise PyRaise("TypeError", ("missing field %s of %s" % (f, c.name),), I.loc)
    return NTInst(c, [vals[f] for f in c.fields])


def DictOp(d):
    return tuple(sorted(((str(k), v) for k, v in d.items()), key=lambda kv: kv[0]))


def call_vmap(I, vm, args, kwargs):
    f = vm.f
    in_axes = vm.in_axes
    if in_axes is None:
        raise PyRaise("ValueError", ("vmap in_axes None",), I.loc)
    if isinstance(in_axes, (list, tuple)) and not isinstance(in_axes, NTInst):
        axes = list(in_axes)
        if len(axes) != len(args):
            raise PyRaise("ValueError", ("vmap in_axes has %d entries for %d arguments" % (len(axes), len(args)),), I.loc)
    else:
        axes = [in_axes] * len(args)
    size = [None]
    var = [None]

    def leaf_size(a, axis):
        if axis is None:
            return
        if isinstance(a, (list, tuple, NTInst)):
            items = iterate(I, a)
            sub = list(iterate(I, axis)) if isinstance(axis, (list, tuple, NTInst)) else [axis] * len(items)
            for x, y in zip(items, sub):
                leaf_size(x, y)
            return
        if isinstance(a, dict):
            for x in a.values():
                leaf_size(x, axis)
            return
        if isinstance(a, KeyArr):
            s = num(a.n)
        else:
            a = asarr(a, I)
            if a.ndim == 0:
                raise PyRaise("ValueError", ("vmap over a 0-d argument",), I.loc)
            s = a.shape[normalize_axis(axis, a.ndim)]
        if size[0] is None:
            size[0] = s
        elif size[0] is not s:
            raise ShapeError("vmap sizes differ: %s vs %s" % (show(size[0]), show(s)))

    for a, x in zip(args, axes):
        leaf_size(a, x)
    for a in kwargs.values():
        leaf_size(a, 0)
    if size[0] is None:
        raise PyRaise("ValueError", ("vmap without mapped argument",), I.loc)
    n = size[0]
    v = idx_atom(fresh_name("v"), n)
    vt = ZERO_T if n is ONE_T else atom_term(v)

    def slc(a, axis):
        if axis is None:
            return a
        if isinstance(a, NTInst):
            sub = list(iterate(I, axis)) if isinstance(axis, (list, tuple, NTInst)) else [axis] * len(a.vals)
            return NTInst(a.cls, [slc(x, y) for x, y in zip(a.vals, sub)])
        if isinstance(a, (list, tuple)):
            sub = list(iterate(I, axis)) if isinstance(axis, (list, tuple, NTInst)) else [axis] * len(a)
            return type(a)(slc(x, y) for x, y in zip(a, sub))
        if isinstance(a, dict):
            return {k: slc(x, axis) for k, x in a.items()}
        if isinstance(a, KeyArr):
            return a.item(("vmap", show_atom(v)))
        a = asarr(a, I)
        return take(a, normalize_axis(axis, a.ndim), vt)

    r = I.call(f, [slc(a, x) for a, x in zip(args, axes)], {k: slc(a, 0) for k, a in kwargs.items()})

    def out(r, oa):
        if isinstance(r, NTInst):
            sub = list(iterate(I, oa)) if isinstance(oa, (list, tuple, NTInst)) else [oa] * len(r.vals)
            return NTInst(r.cls, [out(x, y) for x, y in zip(r.vals, sub)])
        if isinstance(r, (list, tuple)):
            sub = list(iterate(I, oa)) if isinstance(oa, (list, tuple, NTInst)) else [oa] * len(r)
            return type(r)(out(x, y) for x, y in zip(r, sub))
        if isinstance(r, dict):
            return {k: out(x, oa) for k, x in r.items()}
        if r is None:
            return None
        a = asarr(r, I)
        if oa is None:
            return a
        pos = oa if oa >= 0 else a.ndim + 1 + oa
        b = add_axis(a, pos, n, v)
        b.lib = "jnp"
        return b

    return out(r, vm.out_axes)


def call_method(I, o, name, args, kwargs):
    if isinstance(o, HObj):
        return hook(I, o, "h_method", name, args, kwargs)
    if isinstance(o, AtRef):
        if o.ix is None:
            raise Unsupported("at without index", I.loc)
        ix = o.ix if len(o.ix) > 1 else o.ix[0]
        if name == "get":
            return get_index(I, o.arr, ix)
        if name == "apply":
            cur = get_index(I, o.arr, ix)
            return set_index(I, o.arr, ix, I.call(args[0], [cur], {}), "set")
        kw = {k: v for k, v in kwargs.items() if k not in ("mode", "indices_are_sorted", "unique_indices")}
        return set_index(I, o.arr, ix, args[0] if args else kw.get("values"), name)
    if isinstance(o, Arr):
        return arr_method(I, o, name, args, kwargs)
    if is_pathlike(o):
        return path_method(I, o, name, args)
    if isinstance(o, NTInst):
        if name == "_replace":
            vals = list(o.vals)
            for k, v in kwargs.items():
                if k not in o.cls.fields:
                    raise PyRaise("ValueError", ("unexpected field " + k,), I.loc)
                vals[o.cls.fields.index(k)] = v
            return NTInst(o.cls, vals)
        if name == "_asdict":
            return dict(zip(o.cls.fields, o.vals))
    if isinstance(o, NTClass) and name == "_make":
        return call_ntclass(I, o, iterate(I, args[0]), {})
    if isinstance(o, dict):
        return dict_method(I, o, name, args, kwargs)
    if isinstance(o, list):
        return list_method(I, o, name, args, kwargs)
    if isinstance(o, tuple):
        if name == "index":
            for i, x in enumerate(o):
                if same(x, args[0]):
                    return i
            if isinstance(args[0], Op):
                return Op("index", o, args[0])
            raise PyRaise("ValueError", (), I.loc)
        if name == "count":
            return sum(1 for x in o if same(x, args[0]))
    if isinstance(o, (str, bytes)):
        return str_method(I, o, name, args, kwargs)
    if isinstance(o, SetVal):
        if name == "add":
            o.items = mkset(o.items + [args[0]]).items
            return None
        return Op("method:" + name, o, *args)
    if isinstance(o, SeqVal):
        raise Unsupported("method %s of symbolic sequence" % name, I.loc)
    if isinstance(o, (int, F)):
        if name == "is_integer":
            return F(o).denominator == 1
        if name == "item":
            return o
    raise Unsupported("method %s of %r" % (name, o), I.loc)


def dict_method(I, o, name, args, kwargs):
    unk = lambda k: k.v if isinstance(k, DKey) else k
    if name == "keys":
        return [unk(k) for k in o]
    if name == "values":
        return list(o.values())
    if name == "items":
        return [(unk(k), v) for k, v in o.items()]
    if name == "get":
        k = args[0] if isinstance(args[0], (int, str, F, tuple, type(None))) else DKey(args[0])
        return o.get(k, args[1] if len(args) > 1 else kwargs.get("default"))
    if name == "copy":
        return dict(o)
    if name in ("update", "pop", "setdefault", "clear", "popitem", "move_to_end"):
        I.note_mutation(o, "." + name, None)
    if name == "update":
        if args:
            a = args[0]
            if isinstance(a, dict):
                o.update(a)
            else:
                for k, v in [iterate(I, x) for x in iterate(I, a)]:
                    o[I.dkey(k)] = v
        o.update(kwargs)
        return None
    if name == "pop":
        k = args[0]
        if k in o:
            return o.pop(k)
        if len(args) > 1:
            return args[1]
        raise PyRaise("KeyError", (k,), I.loc)
    if name == "setdefault":
        return o.setdefault(args[0], args[1] if len(args) > 1 else None)
    if name == "clear":
        o.clear()
        return None
    if name == "popitem":
        if not o:
            raise PyRaise("KeyError", ("popitem",), I.loc)
        last = args[0] if args else kwargs.get("last", True)
        k = list(o)[-1 if last else 0]
        return (unk(k), o.pop(k))
    if name == "move_to_end":
        k = args[0]
        if k not in o:
            raise PyRaise("KeyError", (k,), I.loc)
        last = args[1] if len(args) > 1 else kwargs.get("last", True)
        v = o.pop(k)
        rest = list(o.items())
        o.clear()
        o.update(rest + [(k, v)] if last else [(k, v)] + rest)
        return None
    raise Unsupported("dict." + name, I.loc)


def list_method(I, o, name, args, kwargs):
    if name in ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear"):
        I.note_mutation(o, "." + name, None)
    if name == "append":
        o.append(args[0])
        return None
    if name == "extend":
        o.extend(iterate(I, args[0]))
        return None
    if name == "insert":
        o.insert(iconst(args[0]), args[1])
        return None
    if name == "pop":
        return o.pop(*[iconst(a) for a in args])
    if name == "index":
        for i, x in enumerate(o):
            if same(x, args[0]):
                return i
        raise PyRaise("ValueError", (), I.loc)
    if name == "copy":
        return list(o)
    if name == "reverse":
        o.reverse()
        return None
    if name == "count":
        return sum(1 for x in o if same(x, args[0]))
    if name == "clear":
        o.clear()
        return None
    if name == "sort":
        if "key" not in kwargs and (all(isinstance(x, (int, F)) for x in o) or all(isinstance(x, str) for x in o)):
            o.sort(reverse=bool(kwargs.get("reverse", False)))
            return None
        o[:] = sort_items(I, o, kwargs.get("key"), kwargs.get("reverse", False))
        return None
    raise Unsupported("list." + name, I.loc)


def str_method(I, o, name, args, kwargs):
    if all(isinstance(a, (str, bytes, int, tuple, type(None))) for a in args) and not kwargs and not any(
        isinstance(x, Op) for a in args if isinstance(a, tuple) for x in a
    ):
        if name == "format" and not all(isinstance(a, (str, int)) for a in args):
            return Op("fstr", o, *args)
        import builtins

        m = builtins.getattr(o, name, None)
        if m is None:
            raise PyRaise("AttributeError", (name,), I.loc)
        try:
            return m(*args)
        except Exception as e:
            raise PyRaise(type(e).__name__, (str(e),), I.loc)
    if name == "format":
        return Op("fstr", o, *args, *kwargs.values())
    if name == "join":
        a = args[0]
        if isinstance(a, (list, tuple)) and all(isinstance(x, str) for x in a):
            return o.join(a)
        return Op("strjoin", o, *args)
    return Op("strm:" + name, o, *args)


def arr_method(I, a, name, args, kwargs):
    table = {
        "sum": "np.sum",
        "min": "np.min",
        "max": "np.max",
        "mean": "np.mean",
        "prod": "np.prod",
        "cumsum": "np.cumsum",
        "ravel": "np.ravel",
        "flatten": "np.ravel",
        "squeeze": "np.squeeze",
        "swapaxes": "np.swapaxes",
        "dot": "np.dot",
        "clip": "np.clip",
        "all": "np.all",
        "any": "np.any",
        "ptp": "np.ptp",
        "take": "np.take",
        "repeat": "np.repeat",
        "argmax": "np.argmax",
        "argmin": "np.argmin",
        "std": "np.std",
        "var": "np.var",
        "sort": "np.sort",
        "argsort": "np.argsort",
        "round": "np.round",
        "searchsorted": "np.searchsorted",
        "cumprod": "np.cumprod",
        "trace": "np.trace",
    }
    if name == "sort" and a.lib == "np":
        a.body = run_model(I, "np.sort", REG["np.sort"], [a] + list(args), kwargs, "np").body
        I.write_through(a, ".sort()")
        return None
    if name in ("fill", "put", "partition", "resize", "setfield", "itemset"):
        if a.lib == "jnp":
            raise PyRaise("AttributeError", (name,), I.loc)
        if name == "fill":
            a.body = broadcast_to(asarr(args[0]), a.shape).body
        I.write_through(a, "." + name + "()")
        if name != "fill":
            raise Unsupported("array method " + name, I.loc)
        return None
    if name in table:
        return run_model(I, table[name], REG[table[name]], [a] + list(args), kwargs, a.lib)
    if name == "reshape":
        shp = args[0] if len(args) == 1 else tuple(args)
        if "shape" in kwargs:
            shp = kwargs["shape"]
        if kwargs.get("order", "C") not in ("C", "A", None) or set(kwargs) - {"shape", "order", "copy"}:
            raise Unsupported("reshape option", I.loc)
        return np_reshape(I, a, shp)
    if name == "transpose":
        axes = args[0] if len(args) == 1 and isinstance(args[0], (list, tuple)) else (tuple(args) if args else None)
        return np_transpose(I, a, axes)
    if name == "astype":
        return cast(I, a, args[0] if args else kwargs.get("dtype"))
    if name in ("copy", "block_until_ready", "conj"):
        return Arr(a.shape, a.body, a.dtype, a.lib)
    if name == "item":
        return item_of(I, a)
    if name == "tolist":
        I.event("concretize", how=".tolist()", value=a)
        if a.ndim == 0:
            return a
        if a.shape[0].const() is not None:
            return [x if x.ndim == 0 else arr_method(I, x, "tolist", [], {}) for x in iterate(I, a)]
        var = idx_atom(fresh_name("tl"), a.shape[0])
        return seq_from(take(a, 0, atom_term(var)), var, a.shape[0])
    raise Unsupported("array method " + name, I.loc)


def item_of(I, a):
    I.event("concretize", how=".item()", value=a)
    if a.ndim == 0:
        return a
    r = a
    for s in a.shape:
        if s is not ONE_T:
            raise PyRaise("ValueError", ("item of a non-scalar array",), I.loc)
    return Arr((), a.body, a.dtype)


FLOATS64 = ("float", "float64", "double", "float_", "dtype-f")
NARROW = ("float32", "float16", "bfloat16", "single", "half")
INTS = ("int", "int32", "int64", "uint8", "uint32", "int8", "int16", "long")


def dtype_name(d):
    if d is None:
        return None
    if isinstance(d, str):
        return {"f8": "float64", "f4": "float32", "f": "float32", "d": "float64"}.get(d, d)
    if isinstance(d, Ext):
        return d.name.split(".")[-1]
    if isinstance(d, Builtin):
        return d.name
    if isinstance(d, Op) and d.name == "dtype":
        k = d.args[0]
        return {"f": "float64", "i": "int", "b": "bool"}.get(k, k)
    return repr(d)


def dtype_code(d):
    n = dtype_name(d)
    if n is None:
        return None
    if n in INTS:
        return "i"
    if n in ("bool", "bool_"):
        return "b"
    if n.startswith("p:"):
        return n
    return "f"


def cast(I, a, d):
    n = dtype_name(d)
    a = asarr(a, I)
    if n in NARROW:
        I.event("narrow-cast", to=n, value=a)
        return Arr(a.shape, a.body, "f", a.lib)
    c = dtype_code(d)
    if c == "i" and a.dtype not in ("i", "b"):
        I.event("int-cast", to=n, value=a)
        return Arr(a.shape, T.lift_inds(a.body, lambda t: trunc(t)), "i", a.lib)
    if c == "b" and a.dtype != "b":
        return Arr(a.shape, ONE_T - eqz(a.body), "b", a.lib)
    return Arr(a.shape, a.body, c or a.dtype, a.lib)


def trunc(t):
    c = t.const()
    if c is not None:
        return num(int(c))
    if int_like(t):
        return t
    return fn("trunc", t)


# ================================================================ external calls


def canon(name):
    """canonical model name"""
    for p, q in (
        ("jax.numpy.", "np."),
        ("numpy.", "np."),
        ("jax.lax.", "lax."),
        ("jax.nn.", "nn."),
        ("jax.random.", "jran."),
        ("jax.scipy.", "scipy."),
        ("jax.tree_util.", "tree."),
        ("jax.tree.", "tree."),
        ("math.", "np."),
    ):
        if name.startswith(p):
            return q + name[len(p) :]
    return name


def libof(name):
    if name.startswith("numpy.") or name.startswith("scipy."):
        return "np"
    return "jnp"


def call_ext(I, name, args, kwargs):
    I.event("ext-call", name=name, nargs=len(args), args=args, kwargs=kwargs)
    if I.host is not None:
        r = I.host.call(I, name, args, kwargs)
        if r is not NotImplemented:
            return r
    c = canon(name)
    f = REG.get(c)
    if f is None:
        if name.startswith(("jax.", "numpy.", "math.", "scipy.")) and not name.startswith(("numpy.random",)):
            arrs = [a for a in list(args) + list(kwargs.values()) if isinstance(a, Arr)]
            I.event("unmodelled", name=name)
            if arrs:
                return opaque_elementwise(I, name, args)
            raise Unsupported("unmodelled function " + name, I.loc)
        return host_call(I, Op(name), args, kwargs)
    r = run_model(I, c, f, args, kwargs, libof(name))
    if isinstance(r, Arr) and r.ndim and libof(name) == "np" and c.startswith(("np.", "scipy.")):
        if r.lib != "np":
            r = Arr(r.shape, r.body, r.dtype, "np", None)
    elif isinstance(r, Arr) and r.lib == "np" and name.startswith("jax."):
        r = Arr(r.shape, r.body, r.dtype, "jnp", None)
    return r


# options that do not change the value of a result
BENIGN = {"precision", "preferred_element_type", "device", "sharding", "out_sharding", "unroll", "indices_are_sorted", "unique_indices",
          "subok", "like", "copy", "accuracy", "promise_integers", "upcast_f16_for_computation", "a_min", "a_max", "min", "max",
          "retstep", "keepdims", "newshape", "impl", "wrap_negative_indices"}
SIGS = {}


def signature(f):
    if f not in SIGS:
        import inspect

        ps = inspect.signature(f).parameters
        SIGS[f] = (
            {n for n, p in ps.items() if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)},
            any(p.kind == p.VAR_KEYWORD for p in ps.values()),
            sum(p.kind == p.POSITIONAL_OR_KEYWORD for p in ps.values()),
            any(p.kind == p.VAR_POSITIONAL for p in ps.values()),
        )
    return SIGS[f]


def run_model(I, c, f, args, kwargs, lib):
    """apply the model of an array function; an option the model does not know never passes silently"""
    if not c.startswith(("np.", "lax.", "jax.numpy.", "jax.lax.", "nn.", "jran.", "scipy.")):
        return f(I, *args, **kwargs)
    names, var, npos, varpos = signature(f)
    kw, out, dtype, where_ = {}, None, None, None
    for k, v in kwargs.items():
        if k == "out":
            out = v[0] if isinstance(v, tuple) and len(v) == 1 else v
        elif k in names:
            kw[k] = v
        elif k == "dtype":
            dtype = v
        elif k == "where" and f in UFUNCS:
            where_ = None if v is True else v
        elif v is None or k in BENIGN or k == "order" and v in ("C", "K", "A") or k == "where" and v is True:
            if var and k in BENIGN:
                kw[k] = v
        elif k == "kind" and c in ("np.sort", "np.argsort") or k == "method" and c == "np.searchsorted" or k == "mode" and v in ("clip", "promise_in_bounds") and lib == "jnp":
            pass
        else:
            raise Unsupported("option %s of %s" % (k, c), I.loc)
    if f in UFUNCS and len(args) > npos - 1:
        if len(args) > npos:
            raise Unsupported("extra arguments of " + c, I.loc)
        out = args[-1]
        args = args[:-1]
    elif c in ("np.reshape", "np.ravel", "np.copy", "np.asarray", "np.nan_to_num", "np.ediff1d", "lax.reshape") and varpos and len(args) > npos - 1:
        if any(a is not None and a not in ("C", "K", "A") for a in args[npos - 1 :] if not isinstance(a, Arr)) or any(isinstance(a, Arr) for a in args[npos - 1 :]):
            raise Unsupported("extra arguments of " + c, I.loc)
        args = args[: npos - 1]
    r = f(I, *args, **kw)
    if dtype is not None:
        r = cast(I, asarr(r, I), dtype)
    if where_ is not None and out is None:
        raise Unsupported("masked %s leaves values undefined" % c, I.loc)
    if out is not None:
        if not isinstance(out, Arr) or out.lib != "np":
            raise Unsupported("out= of " + c, I.loc)
        r = asarr(r, I)
        if where_ is not None:
            r = np_where(I, where_, r, Arr(out.shape, out.body, out.dtype, out.lib))
        if out.dtype == "i" and r.dtype == "f":
            raise PyRaise("TypeError", ("cannot cast the output of %s to integers" % c,), I.loc)
        out.body = broadcast_to(r, out.shape).body
        I.write_through(out, c + "(out=)")
        return out
    return r


UFUNCS = set()


def opaque_elementwise(I, name, args):
    raise Unsupported("unmodelled function " + name, I.loc)


def host_call(I, f, args, kwargs):
    if I.host is not None:
        r = I.host.call_op(I, f, args, kwargs)
        if r is not NotImplemented:
            return r
    I.event("host-call", fn=f, args=args, kwargs=kwargs)
    if f.name == "attr":
        o, name = f.args
        return Op("m:" + name, o, *args, *[("kw", k, v) for k, v in sorted(kwargs.items())])
    return Op("call:" + f.name, *args, *[("kw", k, v) for k, v in sorted(kwargs.items())])


# ---------------------------------------------------------------- builtins

BUILTINS = {}


def bi(name):
    def d(f):
        BUILTINS[name] = Builtin(name, f)
        return f

    return d


def builtin(name):
    b = BUILTINS.get(name)
    if b is not None:
        return b
    if name in EXC_PARENT:
        return Builtin(name, lambda I, *a, **k: Op("exc:" + name, *a))
    if name in ("True", "False", "None"):
        return {"True": True, "False": False, "None": None}[name]
    if name in ("object", "property", "staticmethod", "classmethod"):
        return Ext("builtins." + name)
    return None


@bi("len")
def b_len(I, v):
    if isinstance(v, HObj):
        return hook(I, v, "h_len")
    if isinstance(v, (list, tuple, dict, str)):
        return len(v)
    if isinstance(v, NTInst):
        return len(v.vals)
    if isinstance(v, SetVal):
        return len(v.items)
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyRaise("TypeError", ("len of 0-d array",), I.loc)
        return dimval(v.shape[0])
    if isinstance(v, SeqVal):
        return dimval(v.size)
    if isinstance(v, Op):
        return Op("len", v)
    raise Unsupported("len of %r" % (v,), I.loc)


@bi("range")
def b_range(I, *a):
    cs = [iconst(x) for x in a]
    if all(c is not None for c in cs):
        r = range(*cs)
        if len(r) > MAX_UNROLL:
            raise Unsupported("range too long", I.loc)
        return list(r)
    if len(a) == 1:
        lo, hi = ZERO_T, iterm(a[0])
    elif len(a) == 2:
        lo, hi = iterm(a[0]), iterm(a[1])
    else:
        raise Unsupported("symbolic range step", I.loc)
    if isinstance(a[-1], Op):
        return Op("range", *a)
    return SeqVal(hi - lo, lambda i: Arr((), lo + lift(i), "i"))


@bi("enumerate")
def b_enumerate(I, v, start=0):
    if isinstance(v, SeqVal) and v.size.const() is None:
        return SeqVal(v.size, lambda i: (Arr((), lift(i) + start, "i"), v.at(i)))
    if isinstance(v, Arr) and v.ndim and v.shape[0].const() is None:
        return SeqVal(v.shape[0], lambda i: (Arr((), lift(i) + start, "i"), take(v, 0, lift(i))))
    if isinstance(v, Op):
        return Op("enumerate", v)
    return [(i + start, x) for i, x in enumerate(iterate(I, v))]


@bi("zip")
def b_zip(I, *vs, strict=False):
    if any(isinstance(v, Op) for v in vs):
        return Op("zip", *vs)
    symb = [v for v in vs if isinstance(v, SeqVal) or (isinstance(v, Arr) and v.ndim and v.shape[0].const() is None)]
    if symb:
        sizes = [v.size if isinstance(v, SeqVal) else v.shape[0] for v in symb]
        if any(s is not sizes[0] for s in sizes) or len(symb) != len(vs):
            raise Unsupported("zip of different symbolic lengths", I.loc)
        return SeqVal(sizes[0], lambda i: tuple(v.at(lift(i)) if isinstance(v, SeqVal) else take(v, 0, lift(i)) for v in vs))
    return [tuple(t) for t in zip(*[iterate(I, v) for v in vs])]


@bi("float")
def b_float(I, v=0):
    if isinstance(v, (int, F)):
        return F(v)
    if isinstance(v, str):
        return F(v)
    if isinstance(v, Arr):
        I.event("concretize", how="float()", value=v)
        for s in v.shape:
            if s is not ONE_T:
                raise PyRaise("TypeError", ("float of array",), I.loc)
        return Arr((), v.body, "f")
    if isinstance(v, Op):
        return Op("float", v)
    raise Unsupported("float of %r" % (v,), I.loc)


@bi("int")
def b_int(I, v=0):
    if isinstance(v, (int, F)):
        return int(v)
    if isinstance(v, str):
        return int(v)
    if isinstance(v, Arr):
        I.event("concretize", how="int()", value=v)
        c = v.body.const()
        if c is not None:
            return int(c)
        return Arr((), trunc(v.body), "i")
    if isinstance(v, Op):
        return Op("int", v)
    raise Unsupported("int of %r" % (v,), I.loc)


@bi("bool")
def b_bool(I, v=False):
    t = I.concrete_truth(v)
    if t is not None:
        return t
    if isinstance(v, Arr):
        I.event("concretize", how="bool()", value=v)
        return Arr((), v.body if v.dtype == "b" else ONE_T - eqz(v.body), "b")
    return v


@bi("str")
def b_str(I, v=""):
    if isinstance(v, str):
        return v
    if isinstance(v, int):
        return str(v)
    if is_pathlike(v):
        return v
    return Op("str", v)


@bi("repr")
def b_repr(I, v):
    return Op("repr", v)


@bi("print")
def b_print(I, *a, **k):
    return None


@bi("list")
def b_list(I, v=()):
    if isinstance(v, SeqVal) and v.size.const() is None:
        return v
    if isinstance(v, Op):
        return Op("list", v) if v.name not in ("map",) else v
    if isinstance(v, Arr) and v.ndim and v.shape[0].const() is None:
        return SeqVal(v.shape[0], lambda i: take(v, 0, lift(i)))
    return list(iterate(I, v))


@bi("tuple")
def b_tuple(I, v=()):
    r = b_list(I, v)
    return tuple(r) if isinstance(r, list) else r


@bi("dict")
def b_dict(I, v=None, **k):
    d = {}
    if isinstance(v, dict):
        d.update(v)
    elif isinstance(v, Op):
        return Op("dict", v)
    elif v is not None:
        for x in iterate(I, v):
            a, b = iterate(I, x)
            d[I.dkey(a)] = b
    d.update(k)
    return d


@bi("set")
def b_set(I, v=()):
    if isinstance(v, Op):
        return Op("set", v)
    return mkset(list(iterate(I, v)))


@bi("frozenset")
def b_fset(I, v=()):
    return b_set(I, v)


@bi("sum")
def b_sum(I, v, start=0):
    if isinstance(v, (SeqVal,)) and v.size.const() is None:
        return np_add(I, np_sum(I, asarr(v), axis=0), start)
    if isinstance(v, Op):
        return Op("sum", v)
    if isinstance(v, Arr) and v.ndim and v.shape[0].const() is None:
        return np_sum(I, v, axis=0)
    r = start
    for x in iterate(I, v):
        r = binop(I, "Add", r, x)
    return r


def _minmax(I, op, args, key=None, default=None):
    items = list(args)
    if len(items) == 1:
        if isinstance(items[0], Op):
            return Op(op, items[0])
        items = iterate(I, items[0])
    if not items:
        if default is not None:
            return default
        raise PyRaise("ValueError", (op + " of an empty sequence",), I.loc)
    if key is not None:
        ks = [known_key(I.call(key, [x], {})) for x in items]
        if len(items) > 1 and None in ks:
            raise Unsupported(op + " with symbolic keys", I.loc)
        j = (min if op == "min" else max)(range(len(items)), key=lambda j: ks[j]) if len(items) > 1 else 0
        return items[j]
    if all(isinstance(x, (int, F)) for x in items):
        return (min if op == "min" else max)(items)
    r = items[0]
    for x in items[1:]:
        r = ew(tmin if op == "min" else tmax, tonum(r), tonum(x))
    return r


@bi("min")
def b_min(I, *a, **k):
    return _minmax(I, "min", a, **k)


@bi("max")
def b_max(I, *a, **k):
    return _minmax(I, "max", a, **k)


@bi("abs")
def b_abs(I, v):
    if isinstance(v, (int, F)):
        return abs(v)
    return ew(tabs, v)


@bi("round")
def b_round(I, v, n=None):
    if isinstance(v, (int, F)):
        return round(v, n) if n is not None else round(v)
    raise Unsupported("round", I.loc)


@bi("pow")
def b_pow(I, a, b):
    return binop(I, "Pow", a, b)


@bi("isinstance")
def b_isinstance(I, v, c):
    cs = c if isinstance(c, tuple) else (c,)
    names = []
    for x in cs:
        if isinstance(x, NTClass):
            if isinstance(v, NTInst) and v.cls is x:
                return True
            names.append("nt")
        elif isinstance(x, Builtin):
            names.append(x.name)
        elif isinstance(x, Ext):
            names.append(x.name)
    if isinstance(v, Op):
        return Op("isinstance", v, tuple(names))
    if isinstance(v, bool):
        return "bool" in names or "int" in names
    if isinstance(v, int):
        return "int" in names
    if isinstance(v, F):
        return "float" in names
    if isinstance(v, str):
        return "str" in names
    if isinstance(v, dict):
        return "dict" in names
    if isinstance(v, list):
        return "list" in names
    if isinstance(v, (tuple, NTInst)):
        return "tuple" in names
    if isinstance(v, Arr):
        return any(n.endswith(("ndarray", "Array")) for n in names)
    return False


@bi("getattr")
def b_getattr(I, o, name, *d):
    if not isinstance(name, str):
        return Op("getattr", o, name)
    if isinstance(o, Op) or not d:
        return I.getattr(o, name)
    try:
        return I.getattr(o, name)
    except PyRaise as e:
        if d and e.exc == "AttributeError":
            return d[0]
        raise


@bi("hasattr")
def b_hasattr(I, o, name):
    if isinstance(o, Op):
        return Op("hasattr", o, name)
    try:
        I.getattr(o, name)
        return True
    except PyRaise as e:
        if e.exc == "AttributeError":
            return False
        raise


@bi("setattr")
def b_setattr(I, o, name, v):
    I.event("setattr", obj=repr(o), attr=name)
    return None


@bi("sorted")
def b_sorted(I, v, key=None, reverse=False):
    if isinstance(v, (Op, SetVal)):
        return Op("sorted", v)
    items = iterate(I, v)
    return sort_items(I, items, key, reverse)


def sort_items(I, items, key=None, reverse=False):
    """a sorted copy; symbolic values become order statistics of the whole collection"""
    items = list(items)
    keys = items if key is None else [I.call(key, [x], {}) for x in items]
    keys = [known_key(k) for k in keys]
    if len(items) <= 1:
        return items
    if None not in keys and len({type(k[0]) for k in keys}) == 1:
        js = sorted(range(len(items)), key=lambda j: keys[j], reverse=bool(reverse))
        return [items[j] for j in js]
    if key is None:
        return [Op("order_stat", j, bool(reverse), tuple(items)) for j in range(len(items))]
    raise Unsupported("sorted with symbolic keys", I.loc)


def known_key(k):
    """a tuple that orders like the value, when it is known"""
    if isinstance(k, str):
        return (k,)
    if isinstance(k, (int, F)):
        return (F(k),)
    if isinstance(k, Arr) and k.ndim == 0 and k.body.const() is not None:
        return (F(k.body.const()),)
    if isinstance(k, (tuple, list)):
        ks = [known_key(x) for x in k]
        return None if None in ks else (tuple(ks),)
    return None


@bi("reversed")
def b_reversed(I, v):
    return list(reversed(iterate(I, v)))


@bi("map")
def b_map(I, f, *vs):
    if any(isinstance(v, Op) for v in vs):
        return Op("map", I.call(f, [Op("elem", v) for v in vs], {}), *vs)
    if len(vs) == 1 and (isinstance(vs[0], SeqVal) or (isinstance(vs[0], Arr) and vs[0].ndim and vs[0].shape[0].const() is None)):
        v = vs[0]
        size = v.size if isinstance(v, SeqVal) else v.shape[0]
        return SeqVal(size, lambda i: I.call(f, [v.at(lift(i)) if isinstance(v, SeqVal) else take(v, 0, lift(i))], {}))
    return [I.call(f, list(x), {}) for x in zip(*[iterate(I, v) for v in vs])]


@bi("filter")
def b_filter(I, f, v):
    return [x for x in iterate(I, v) if I.truth(I.call(f, [x], {}) if f is not None else x)]


@bi("any")
def b_any(I, v):
    if isinstance(v, Op):
        return Op("any", v)
    if isinstance(v, Arr):
        return np_any(I, v)
    for x in iterate(I, v):
        if I.truth(x):
            return True
    return False


@bi("all")
def b_all(I, v):
    if isinstance(v, Op):
        return Op("all", v)
    if isinstance(v, Arr):
        return np_all(I, v)
    for x in iterate(I, v):
        if not I.truth(x):
            return False
    return True


@bi("open")
def b_open(I, *a, **k):
    I.event("open", args=a, kwargs=k)
    if I.host is not None and builtins_hasattr(I.host, "open"):
        return I.host.open(I, *a, **k)
    return Op("open", *a, *[("kw", x, y) for x, y in sorted(k.items())])


@bi("id")
def b_id(I, v):
    return id(v)


@bi("type")
def b_type(I, v, *a):
    if isinstance(v, NTInst):
        return v.cls
    return Op("type", v)


@bi("callable")
def b_callable(I, v):
    return isinstance(v, (Func, VMap, JitWrap, Partial, Builtin, NTClass, Bound, Ext))


@bi("slice")
def b_slice(I, *a):
    return slice(*a)


@bi("iter")
def b_iter(I, v):
    return v


@bi("next")
def b_next(I, v, *d):
    its = iterate(I, v)
    return its[0]


@bi("divmod")
def b_divmod(I, a, b):
    return (binop(I, "FloorDiv", a, b), binop(I, "Mod", a, b))


@bi("exit")
def b_exit(I, *a):
    raise PyRaise("SystemExit", a, I.loc)


@bi("super")
def b_super(I, *a):
    raise Unsupported("super()", I.loc)


@bi("vars")
def b_vars(I, o):
    return Op("vars", o)


@bi("globals")
def b_globals(I):
    I.event("globals-call")
    return Op("globals")


# ---------------------------------------------------------------- stdlib models


@model("collections.OrderedDict")
def m_odict(I, v=None, **k):
    return b_dict(I, v, **k)


@model("collections.defaultdict")
def m_ddict(I, *a, **k):
    return {}


@model("collections.namedtuple")
def m_namedtuple(I, name, fields, **k):
    I.event("namedtuple", name=name, fields=fields)
    if isinstance(fields, str):
        fields = fields.replace(",", " ").split()
    if isinstance(fields, (Op, SeqVal)):
        return NTClass(name, fields if isinstance(fields, Op) else Op("seq"))
    fields = list(iterate(I, fields))
    if any(not isinstance(f, str) for f in fields):
        return NTClass(name, Op("fields", *fields))
    import keyword

    for f in fields:
        if not f.isidentifier() or keyword.iskeyword(f) or f.startswith("_"):
            raise PyRaise("ValueError", ("invalid field name " + f,), I.loc)
    if len(set(fields)) != len(fields):
        raise PyRaise("ValueError", ("duplicate field name",), I.loc)
    d = {}
    if "defaults" in k:
        ds = iterate(I, k["defaults"])
        d = dict(zip(fields[len(fields) - len(ds) :], ds))
    return NTClass(name, fields, d)


@model("typing.NamedTuple")
def m_typing_nt(I, name, fields):
    return NTClass(name, [iterate(I, f)[0] for f in iterate(I, fields)])


@model("copy.deepcopy", "copy.copy")
def m_deepcopy(I, v, *a):
    if isinstance(v, dict):
        return {k: m_deepcopy(I, x) for k, x in v.items()}
    if isinstance(v, list):
        return [m_deepcopy(I, x) for x in v]
    if isinstance(v, Arr):
        return Arr(v.shape, v.body, v.dtype, v.lib)
    return v


@model("functools.partial")
def m_partial(I, f, *a, **k):
    return Partial(f, a, k)


@model("functools.reduce")
def m_reduce(I, f, seq, *init):
    items = iterate(I, seq)
    acc = init[0] if init else items.pop(0)
    for x in items:
        acc = I.call(f, [acc, x], {})
    return acc


@model("functools.wraps")
def m_wraps(I, f, *a, **k):
    return Builtin("wraps", lambda I, g: g)


@model("functools.lru_cache", "functools.cache")
def m_lru(I, f=None, **k):
    if isinstance(f, (Func, JitWrap, VMap)):
        I.event("memoize", fn=f)
        f.attrs["memoized"] = True
        return f
    return Builtin("lru", lambda I, g: g)


@model("operator.mul", "operator.add", "operator.sub", "operator.truediv")
def m_operator(I, a, b):
    raise Unsupported("operator module", I.loc)


# ---------------------------------------------------------------- jax transforms


@model("jax.jit", "jax.pjit")
def m_jit(I, f=None, **k):
    if f is None:
        return Partial(Ext("jax.jit"), (), k)
    if isinstance(f, Func):
        g = Func(f.node, f.mod, f.env, f.name, f.defaults, f.kwdefaults, f.qual)
        g.kwmissing = f.kwmissing
        g.attrs = dict(f.attrs)
        g.jitted = True
        g.jit_opts = k
        return g
    if isinstance(f, Builtin) or isinstance(f, Ext):
        return JitWrap(f, k)
    return JitWrap(f, k)


@model("jax.custom_jvp", "jax.custom_vjp")
def m_custom(I, f, *a, **k):
    g = m_jit(I, f)
    if isinstance(g, Func):
        g.jitted = f.jitted
    g.attrs["custom-derivative"] = True
    return g


@model("jax.vmap")
def m_vmap(I, f, in_axes=0, out_axes=0, axis_name=None, axis_size=None, spmd_axis_name=None):
    return VMap(f, in_axes, out_axes)


@model("jax.config.update")
def m_config(I, k, v):
    I.event("config", key=k, val=v)


@model("jax.checkpoint", "jax.remat", "jax.named_call")
def m_ident(I, f, *a, **k):
    return f


@model("jax.debug.print", "jax.debug.callback")
def m_dbg(I, *a, **k):
    return None


@model("jax.device_put", "jax.block_until_ready")
def m_dput(I, x, *a, **k):
    return x


@model("jax.numpy.vectorize", "np.vectorize")
def m_vectorize(I, f, **k):
    if k:
        raise Unsupported("vectorize with signature", I.loc)
    return Builtin("vectorized", lambda I, *a: I.call(f, [asarr(x) for x in a], {}))


@model("tree.tree_map", "tree.map")
def m_tree_map(I, f, t, *rest):
    def go(t, *r):
        if isinstance(t, NTInst):
            return NTInst(t.cls, [go(*x) for x in zip(t.vals, *[q.vals for q in r])])
        if isinstance(t, (list, tuple)):
            return type(t)(go(*x) for x in zip(t, *r))
        if isinstance(t, dict):
            return {k: go(t[k], *[q[k] for q in r]) for k in t}
        return I.call(f, [t, *r], {})

    return go(t, *rest)


# ================================================================ numpy

CONSTS = {
    "jax.numpy.pi": lambda: scalar(PI),
    "numpy.pi": lambda: scalar(PI),
    "math.pi": lambda: scalar(PI),
    "jax.numpy.e": lambda: scalar(exp(ONE_T)),
    "numpy.e": lambda: scalar(exp(ONE_T)),
    "math.e": lambda: scalar(exp(ONE_T)),
    "jax.numpy.newaxis": lambda: None,
    "numpy.newaxis": lambda: None,
    "jax.numpy.inf": lambda: scalar(fn("inf")),
    "numpy.inf": lambda: scalar(fn("inf")),
    "math.inf": lambda: scalar(fn("inf")),
    "jax.numpy.nan": lambda: scalar(fn("nan")),
    "numpy.nan": lambda: scalar(fn("nan")),
    "scipy.constants.c": lambda: F(299792458),
}


def unary(names, f, dtype="f"):
    def m(I, x, *a, **k):
        if isinstance(x, Op):
            x = tonum(x)
        return ew(f, asarr(x, I), dtype=dtype)

    UFUNCS.add(m)
    for n in names.split():
        REG[n] = m
    return m


unary("np.exp lax.exp", exp)
unary("np.exp2 lax.exp2", lambda x: exp(x * ln(num(2))))
unary("np.expm1 lax.expm1", lambda x: exp(x) - 1)
unary("np.log lax.log", ln)
unary("np.log10", log10)
unary("np.log2", lambda x: ln(x) / ln(num(2)))
unary("np.log1p lax.log1p", lambda x: ln(x + 1))
unary("np.sqrt lax.sqrt", lambda x: power(x, F(1, 2)))
unary("lax.rsqrt", lambda x: power(x, F(-1, 2)))
unary("np.cbrt lax.cbrt", lambda x: power(x, F(1, 3)))
unary("np.square lax.square", lambda x: x * x, None)
unary("np.reciprocal", lambda x: power(x, F(-1)))
unary("np.negative lax.neg", lambda x: -x, None)
unary("np.positive", lambda x: x, None)
unary("np.abs np.absolute np.fabs lax.abs", tabs, None)
unary("np.sign lax.sign", lambda x: ind(x) - ind(-x), None)
unary("np.tanh lax.tanh", lambda x: 2 * sigmoid(2 * x) - 1)
unary("np.sinh", lambda x: (exp(x) - exp(-x)) / 2)
unary("np.cosh", lambda x: (exp(x) + exp(-x)) / 2)
unary("nn.sigmoid lax.logistic scipy.special.expit", sigmoid)
unary("nn.softplus", lambda x: ln(1 + exp(x)))
unary("nn.log_sigmoid", lambda x: -ln(1 + exp(-x)))
unary("nn.relu", lambda x: tmax(x, ZERO_T), None)
unary("scipy.special.logit", lambda x: ln(x / (1 - x)))
unary("np.logical_not lax.bitwise_not", lambda x: bnot(x), "b")
unary("np.deg2rad np.radians", lambda x: x * PI / 180)


def _fnunary(name):
    def f(x):
        return lift_inds(x, lambda u: fn(name, u))

    return f


for _n in "sin cos tan arcsin arccos arctan arcsinh arccosh arctanh floor ceil round rint trunc".split():
    unary("np.%s lax.%s" % (_n, _n), _fnunary(_n))
    T.FN_REBUILD[_n] = _fnunary(_n)
unary("scipy.special.erf lax.erf np.erf math.erf", _fnunary("erf"))
T.FN_REBUILD["erf"] = _fnunary("erf")
T.FN_REBUILD["trunc"] = lambda t: lift_inds(t, trunc)
unary("np.isnan", lambda x: ZERO_T, "b")
unary("np.isinf", lambda x: ZERO_T, "b")
unary("np.isfinite lax.is_finite", lambda x: ONE_T, "b")


def nan_event(I, name):
    I.event("nan-handling", name=name)


@model("np.nan_to_num")
def np_nan_to_num(I, x, *a, **k):
    I.event("nan-handling", name="nan_to_num")
    return ew(lambda t: fn("nan_to_num", t), asarr(x, I))


def binary(names, f, dtype=None):
    def m(I, a, b, *r, **k):
        return ew(f, asarr(a, I), asarr(b, I), dtype=dtype)

    UFUNCS.add(m)
    for n in names.split():
        REG[n] = m
    return m


np_add = binary("np.add lax.add", add)
binary("np.subtract lax.sub", lambda x, y: x - y)
binary("np.multiply lax.mul", mul)
binary("np.divide np.true_divide lax.div", lambda x, y: x / y, "f")
binary("np.power lax.pow np.float_power lax.integer_pow np.pow", pow_term)
binary("np.maximum np.fmax lax.max", tmax)
binary("np.minimum np.fmin lax.min", tmin)
binary("np.greater lax.gt", gt, "b")
binary("np.less lax.lt", lt, "b")
binary("np.greater_equal lax.ge", ge, "b")
binary("np.less_equal lax.le", le, "b")
binary("np.equal lax.eq", lambda a, b: eqz(a - b), "b")
binary("np.not_equal lax.ne", lambda a, b: ONE_T - eqz(a - b), "b")
binary("np.logical_and lax.bitwise_and np.bitwise_and", band, "b")
binary("np.logical_or lax.bitwise_or np.bitwise_or", bor, "b")
binary("np.logical_xor", lambda x, y: x + y - 2 * x * y, "b")
binary("np.logaddexp", lambda x, y: ln(exp(x) + exp(y)))
binary("np.hypot", lambda x, y: power(x * x + y * y, F(1, 2)))
binary("np.heaviside", lambda x, h: ind(x) + (1 - ind(x) - ind(-x)) * h)


@model("np.isclose")
def np_isclose(I, a, b, rtol=F("1e-5"), atol=F("1e-8"), equal_nan=False):
    if isinstance(a, Op) or isinstance(b, Op):
        return Op("isclose", a, b, ("rtol", rtol), ("atol", atol))
    return ew(lambda x, y: le(tabs(x - y), lift(atol) + lift(rtol) * tabs(y)), a, b, dtype="b")


@model("np.where", "lax.select", "jax.lax.select")
def np_where(I, c, a=None, b=None, **k):
    if a is None:
        raise Unsupported("one-argument where", I.loc)
    c, a, b = asarr(c, I), asarr(a, I), asarr(b, I)
    cb = c.body if c.dtype == "b" else ONE_T - eqz(c.body)
    I.event("where", cond=c, a=a, b=b)
    shape = bshape(bshape(c.shape, a.shape), b.shape)
    return Arr(shape, fold(where(cb, a.body, b.body)), promote(a.dtype, b.dtype), "jnp")


@model("np.select")
def np_select(I, conds, choices, default=0):
    r = asarr(default)
    for c, x in reversed(list(zip(iterate(I, conds), iterate(I, choices)))):
        r = np_where(I, c, x, r)
    return r


@model("np.piecewise")
def np_piecewise(I, x, conds, funcs, *a):
    fs = iterate(I, funcs)
    cs = iterate(I, conds)
    ap = lambda f: I.call(f, [x], {}) if not isinstance(f, (int, F, Arr)) else f
    r = ap(fs[len(cs)]) if len(fs) > len(cs) else 0
    # later conditions override earlier ones
    for c, f in zip(cs, fs):
        r = np_where(I, c, ap(f), r)
    return r


@model("lax.cond", "jax.lax.cond")
def lax_cond(I, pred, tf, ff, *ops, **k):
    if "operand" in k:
        ops = (k["operand"],)
    p = I.concrete_truth(pred)
    if p is not None:
        return I.call(tf if p else ff, list(ops), {})
    a = I.call(tf, list(ops), {})
    b = I.call(ff, list(ops), {})
    return tree2(I, lambda x, y: np_where(I, pred, x, y), a, b)


def tree2(I, f, a, b):
    if isinstance(a, NTInst):
        return NTInst(a.cls, [tree2(I, f, x, y) for x, y in zip(a.vals, b.vals)])
    if isinstance(a, (list, tuple)):
        return type(a)(tree2(I, f, x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return {k: tree2(I, f, a[k], b[k]) for k in a}
    if a is None:
        return None
    return f(a, b)


@model("lax.switch")
def lax_switch(I, i, fs, *ops):
    c = iconst(i)
    fs = iterate(I, fs)
    if c is not None:
        return I.call(fs[c], list(ops), {})
    r = I.call(fs[0], list(ops), {})
    for k in range(1, len(fs)):
        x = I.call(fs[k], list(ops), {})
        r = tree2(I, lambda p, q: np_where(I, compare(I, "GtE", i, k), q, p), r, x)
    return r


@model("np.clip", "jax.numpy.clip")
def np_clip(I, x, min=None, max=None, **k):
    min = k.get("a_min", min)
    max = k.get("a_max", max)
    min = k.get("min", min)
    r = asarr(x, I)
    if isinstance(x, Op) or x is None:
        r = asarr(tonum(x))
    if min is not None:
        r = ew(tmax, r, min)
    if max is not None:
        r = ew(tmin, r, max)
    return r


@model("lax.clamp")
def lax_clamp(I, lo, x, hi):
    return np_clip(I, x, lo, hi)


@model("np.asarray", "np.asanyarray", "np.ascontiguousarray")
def np_asarray(I, x, dtype=None, *a, **k):
    if isinstance(x, Arr) and x.lib == "np" and (dtype is None or dtype_code(dtype) == x.dtype and dtype_name(dtype) not in NARROW):
        return x  # no copy
    return np_array(I, x, dtype, *a, **k)


@model("np.array")
def np_array(I, x, dtype=None, copy=None, **k):
    if isinstance(x, HObj):
        return x.h_array(I, dtype)
    if isinstance(x, (list, tuple)) and x and all(isinstance(y, (str, bytes)) for y in x):
        from .hostworld import conv_array

        return conv_array(I, x, dtype)
    if isinstance(x, Op):
        return host_array(I, x, dtype)
    if isinstance(x, str) or (isinstance(x, (list, tuple)) and x and isinstance(x[0], (str, Op))):
        return Op("nparray", tuple(x) if isinstance(x, list) else x, *(() if dtype is None else (("dtype", dtype_name(dtype)),)))
    a = asarr(x, I)
    r = Arr(a.shape, a.body, a.dtype, a.lib)
    if isinstance(x, Arr) and copy is False:
        r.src = x.src
    if dtype is not None:
        return cast(I, r, dtype)
    return r


def host_array(I, x, dtype):
    if I.host is not None:
        r = I.host.array(I, x, dtype)
        if r is not NotImplemented:
            return r
    if x.name == "nparray" and dtype is None:
        return x
    return Op("nparray", x, *(() if dtype is None else (("dtype", dtype_name(dtype)),)))


for _n in ("float64", "double"):
    REG["np." + _n] = lambda I, x=0: cast(I, asarr(x), "float64")
for _n in ("float32", "float16", "single", "half", "bfloat16"):
    REG["np." + _n] = (lambda nn: lambda I, x=0: cast(I, asarr(x), nn))(_n)
for _n in ("int64", "int32", "int_", "intp"):
    REG["np." + _n] = lambda I, x=0: cast(I, asarr(x), "int")


@model("np.zeros", "np.empty")
def np_zeros(I, shape, dtype=None, **k):
    return np_full(I, shape, 0, dtype or "float64")


@model("np.ones")
def np_ones(I, shape, dtype=None, **k):
    return np_full(I, shape, 1, dtype or "float64")


@model("np.full", "lax.full")
def np_full(I, shape, v, dtype=None, **k):
    v = asarr(v, I)
    if dtype is not None:
        n = dtype_name(dtype)
        if n in NARROW:
            I.event("narrow-cast", to=n, value=v)
        dt = dtype_code(dtype)
    else:
        dt = v.dtype
    shape = shape_of(I, shape)
    a = broadcast_to(v, shape)
    return Arr(a.shape, a.body, dt, "jnp")


def shape_of(I, s):
    if isinstance(s, (list, tuple)):
        return tuple(iterm(x) for x in s)
    if isinstance(s, Arr) and s.ndim:
        return tuple(x.body for x in iterate(I, s))
    return (iterm(s),)


@model("np.zeros_like", "np.empty_like")
def np_zeros_like(I, a, dtype=None, shape=None, **k):
    return np_full_like(I, a, 0, dtype, shape)


@model("np.ones_like")
def np_ones_like(I, a, dtype=None, shape=None, **k):
    return np_full_like(I, a, 1, dtype, shape)


@model("np.full_like", "lax.full_like")
def np_full_like(I, a, v, dtype=None, shape=None, **k):
    a = asarr(a, I)
    v = asarr(v, I)
    dt = dtype_code(dtype) if dtype is not None else a.dtype
    if dtype is not None and dtype_name(dtype) in NARROW:
        I.event("narrow-cast", to=dtype_name(dtype), value=v)
    if dtype is None and a.dtype != "f" and v.dtype == "f" and v.body.const() is not None and v.body.const().denominator != 1:
        I.event("narrow-store", buffer=a.dtype, value=v.dtype)
    shp = a.shape if shape is None else shape_of(I, shape)
    b = broadcast_to(v, shp)
    return Arr(b.shape, b.body, dt, "jnp")


@model("np.arange", "lax.iota")
def np_arange(I, start, stop=None, step=None, dtype=None):
    if stop is None:
        start, stop = 0, start
    st, en = iterm(start), iterm(stop)
    sp = ONE_T if step is None else iterm(step)
    if all(int_like(x) for x in (st, en, sp)) and sp is ONE_T:
        n = en - st
        return mk((n,), lambda i: st + i[0], "i")
    cs = [x.const() for x in (st, en, sp)]
    if all(c is not None for c in cs):
        n = max(0, math.ceil((cs[1] - cs[0]) / cs[2]))
        isint = all(c.denominator == 1 for c in cs) and all(isinstance(x, int) for x in (start, stop) )
        return mk((num(n),), lambda i: st + i[0] * sp, "i" if isint else "f")
    raise Unsupported("symbolic arange step", I.loc)


@model("np.linspace")
def np_linspace(I, start, stop, num=50, endpoint=True, **k):
    n = iterm(num)
    a, b = asarr(start, I), asarr(stop, I)
    shape = bshape(a.shape, b.shape)
    if endpoint is False:
        d = n
    else:
        d = n - 1
    v = idx_atom(fresh_name("ls"), n)
    if endpoint is False:
        body = a.body + (b.body - a.body) * atom_term(v) / d
    else:
        body = linspace_el(a.body, b.body, n, atom_term(v))
    r = add_axis(Arr(shape, body, "f"), 0, n, v)
    if k.get("retstep"):
        return (r, ew(lambda x, y: (y - x) / d, a, b))
    return r


@model("np.logspace")
def np_logspace(I, start, stop, num=50, endpoint=True, base=10, **k):
    e = np_linspace(I, start, stop, num, endpoint)
    return ew(pow_term, asarr(base), e, dtype="f")


@model("np.geomspace")
def np_geomspace(I, start, stop, num=50, endpoint=True, **k):
    e = np_linspace(I, ew(ln, start), ew(ln, stop), num, endpoint)
    return ew(exp, e)


def reduce_axes(I, a, axis, keepdims, f):
    a = asarr(a, I)
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, (list, tuple)):
        axes = [normalize_axis(x, a.ndim) for x in axis]
    else:
        axes = [normalize_axis(axis, a.ndim)]
    r = a
    for j in sorted(axes, reverse=True):
        r = reduce1(r, j, f)
    if keepdims:
        for j in sorted(axes):
            r = expand(r, j)
    return r


def reduce1(a, j, f):
    nd = a.ndim
    var = ax(nd - 1 - j, a.shape[j])
    body = f(var, a.shape[j], a.body) if a.shape[j] is not ONE_T else f(idx_atom(fresh_name("u"), ONE_T), ONE_T, a.body)
    mp = {}
    for k in range(j):
        r = nd - 1 - k
        mp[ax(r, a.shape[k])] = atom_term(ax(r - 1, a.shape[k]))
    if mp:
        body = subst(body, mp)
    return Arr(a.shape[:j] + a.shape[j + 1 :], body, a.dtype, a.lib)


def expand(a, j):
    """insert a size-1 axis at position j"""
    nd = a.ndim
    mp = {}
    for k in range(j):
        r = nd - 1 - k
        mp[ax(r, a.shape[k])] = atom_term(ax(r + 1, a.shape[k]))
    r = Arr(a.shape[:j] + (ONE_T,) + a.shape[j:], subst(a.body, mp) if mp else a.body, a.dtype, a.lib)
    r.src = a.src
    return r


@model("np.sum", "np.nansum")
def np_sum(I, a, axis=None, keepdims=False, where=None, initial=None, dtype=None, out=None):
    if isinstance(a, Op):
        return Op("sum", a)
    a = asarr(a, I)
    if where is not None:
        a = np_where(I, where, a, 0)
    r = reduce_axes(I, a, axis, keepdims, mk_sum)
    if initial is not None:
        r = ew(add, r, initial)
    if r.dtype == "b":
        r.dtype = "i"
    return r


@model("np.mean", "np.nanmean", "np.average")
def np_mean(I, a, axis=None, keepdims=False, weights=None, **k):
    a = asarr(a, I)
    if weights is not None:
        w = asarr(weights)
        return ew(lambda x, y: x / y, np_sum(I, ew(mul, a, w), axis), np_sum(I, broadcast_to(w, a.shape), axis))
    s = np_sum(I, a, axis, keepdims)
    axes = range(a.ndim) if axis is None else [normalize_axis(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
    n = ONE_T
    for j in axes:
        n = n * a.shape[j]
    return Arr(s.shape, s.body / n, "f", s.lib)


@model("np.prod")
def np_prod(I, a, axis=None, **k):
    a = asarr(a, I)

    def f(var, size, body):
        c = size.const()
        if c is not None and c <= 64:
            r = ONE_T
            for i in range(int(c)):
                r = r * subst(body, {var: num(i)})
            return r
        return exp(mk_sum(var, size, ln(body)))

    return reduce_axes(I, a, axis, k.get("keepdims", False), f)


def _red(op):
    def m(I, a, axis=None, keepdims=False, initial=None, where=None, out=None, **k):
        if isinstance(a, Op):
            return Op("np." + op, a)
        a = asarr(a, I)
        if where is not None:
            raise Unsupported("masked reduction", I.loc)
        if op in ("all", "any") and a.dtype != "b":
            a = Arr(a.shape, ONE_T - eqz(a.body), "b", a.lib)
        r = reduce_axes(I, a, axis, keepdims, lambda v, s, b: mk_red(op, v, s, b))
        if initial is not None:
            r = ew(tmax if op == "max" else tmin, r, initial)
        return r

    return m


np_min = REG["np.min"] = REG["np.amin"] = REG["np.nanmin"] = _red("min")
np_max = REG["np.max"] = REG["np.amax"] = REG["np.nanmax"] = _red("max")
np_all = REG["np.all"] = _red("all")
np_any = REG["np.any"] = _red("any")


@model("np.ptp")
def np_ptp(I, a, axis=None, **k):
    return ew(lambda x, y: x - y, np_max(I, a, axis), np_min(I, a, axis))


@model("np.std")
def np_std(I, a, axis=None, **k):
    return ew(lambda x: power(x, F(1, 2)), np_var(I, a, axis))


@model("np.var")
def np_var(I, a, axis=None, **k):
    a = asarr(a, I)
    m = np_mean(I, a, axis, True)
    return np_mean(I, ew(lambda x, y: (x - y) * (x - y), a, m), axis)


def _opaque_red(op):
    def m(I, a, axis=None, **k):
        a = asarr(a, I)
        return reduce_axes(I, a, axis, k.get("keepdims", False), lambda v, s, b: mk_red(op, v, s, b))

    return m


for _n in ("argmax", "argmin", "median", "nanmedian"):
    REG["np." + _n] = _opaque_red(_n)


@model("np.sort", "np.argsort", "np.unique", "np.searchsorted", "np.digitize", "np.histogram", "np.percentile", "np.quantile", "np.convolve", "np.gradient", "np.roll", "np.cross", "np.linalg.inv", "np.linalg.solve", "np.fft.fft")
def np_opaque(I, *a, **k):
    raise Unsupported("operation without a model", I.loc)


@model("np.roll")
def np_roll(I, a, shift, axis=None):
    a = asarr(a, I)
    s = iconst(shift)
    if s is None or (axis is None and a.ndim != 1):
        raise Unsupported("roll", I.loc)
    j = 0 if axis is None else normalize_axis(axis, a.ndim)
    n = a.shape[j]
    if s == 0:
        return a
    if s > 0:
        # out[i] = a[i-s] for i>=s else a[n+i-s]
        def f(idx):
            i = idx[j]
            hi = a.at(idx[:j] + [i - s] + idx[j + 1 :])
            lo = a.at(idx[:j] + [n + i - s] + idx[j + 1 :])
            return where(ge(i, num(s)), hi, lo)
    else:
        s = -s

        def f(idx):
            i = idx[j]
            lo = a.at(idx[:j] + [i + s] + idx[j + 1 :])
            hi = a.at(idx[:j] + [i + s - n] + idx[j + 1 :])
            return where(lt(i, n - s), lo, hi)

    return mk(a.shape, f, a.dtype, a.lib)


@model("np.flip", "np.flipud", "lax.rev")
def np_flip(I, a, axis=None):
    a = asarr(a, I)
    axes = range(a.ndim) if axis is None else [normalize_axis(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
    return mk(a.shape, lambda idx: a.at([a.shape[j] - 1 - i if j in axes else i for j, i in enumerate(idx)]), a.dtype, a.lib)


@model("np.cumsum", "lax.cumsum")
def np_cumsum(I, a, axis=None, dtype=None, reverse=False, **k):
    a = asarr(a, I)
    if axis is None:
        if a.ndim != 1:
            a = np_ravel(I, a)
        axis = 0
    j = normalize_axis(axis, a.ndim)
    n = a.shape[j]

    def f(idx):
        i = idx[j]
        v = idx_atom(fresh_name("cs"), n)
        el = a.at(idx[:j] + [atom_term(v)] + idx[j + 1 :])
        if reverse:
            return mk_sum(v, n, el) - mk_sum(v, i, el)
        return mk_sum(v, i + 1, el)

    return mk(a.shape, f, a.dtype, a.lib)


@model("np.diff")
def np_diff(I, a, n=1, axis=-1, prepend=None, append=None):
    a = asarr(a, I)
    j = normalize_axis(axis, a.ndim)
    if prepend is not None or append is not None:
        parts = []
        if prepend is not None:
            p = asarr(prepend)
            parts.append(expand(p, 0) if p.ndim == 0 else p)
        parts.append(a)
        if append is not None:
            p = asarr(append)
            parts.append(expand(p, 0) if p.ndim == 0 else p)
        a = np_concatenate(I, parts, axis=j)
    for _ in range(iconst(n)):
        shp = list(a.shape)
        shp[j] = shp[j] - 1
        b = a
        a = mk(
            shp,
            lambda idx: b.at(idx[:j] + [idx[j] + 1] + idx[j + 1 :]) - b.at(idx),
            a.dtype,
            a.lib,
        ) if False else _diff1(b, j, shp)
    return a


def _diff1(b, j, shp):
    def f(idx):
        lo = list(idx)
        hi = list(idx)
        hi[j] = idx[j] + 1
        return b.at(hi) - b.at(lo)

    return mk(shp, f, b.dtype, b.lib)


@model("np.ediff1d")
def np_ediff1d(I, a, *r, **k):
    return np_diff(I, np_ravel(I, a))


@model("np.trapezoid", "np.trapz", "scipy.integrate.trapezoid", "scipy.integrate.trapz")
def np_trapezoid(I, y, x=None, dx=1, axis=-1):
    y = asarr(y, I)
    j = normalize_axis(axis, y.ndim)
    n = y.shape[j]
    v = idx_atom(fresh_name("tz"), n - 1)
    vt = atom_term(v)
    if x is not None:
        x = asarr(x, I)
        xd = (lambda idx: x.at([idx[j] + 1]) - x.at([idx[j]])) if x.ndim == 1 else None
        if x.ndim == 1:
            if x.shape[0] is not n:
                raise ShapeError("trapezoid sizes %s vs %s" % (show(x.shape[0]), show(n)))
            d = x.at([vt + 1]) - x.at([vt])
        else:
            x = broadcast_to(x, y.shape)
            d = None
    else:
        d = asarr(dx).body
    shape = y.shape[:j] + y.shape[j + 1 :]

    def f(idx):
        full = lambda t: idx[:j] + [t] + idx[j:]
        ys = y.at(full(vt + 1)) + y.at(full(vt))
        dd = d if d is not None else x.at(full(vt + 1)) - x.at(full(vt))
        return scale(mk_sum(v, n - 1, dd * ys), F(1, 2))

    return mk(shape, f, "f", y.lib)


@model("np.interp")
def np_interp(I, x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("periodic interp", I.loc)
    x, xp, fp = asarr(x, I), asarr(xp, I), asarr(fp, I)
    if left == "extrapolate" or right == "extrapolate":
        raise Unsupported("extrapolating interp", I.loc)
    if xp.ndim != 1 or fp.ndim != 1:
        raise ShapeError("interp tables must be one-dimensional")
    if xp.shape[0] is not fp.shape[0]:
        raise ShapeError("interp sizes %s vs %s" % (show(xp.shape[0]), show(fp.shape[0])))
    n = xp.shape[0]
    v = idx_atom(fresh_name("ip"), n)
    xl = mk_lam(v, n, xp.at([atom_term(v)]))
    fl = mk_lam(v, n, fp.at([atom_term(v)]))
    l = None if left is None else asarr(left).body
    r = None if right is None else asarr(right).body
    return Arr(x.shape, interp(x.body, xl, fl, l, r), "f", x.lib)


@model("np.reshape", "lax.reshape")
def np_reshape(I, a, shape=None, *r, **k):
    shape = k.get("newshape", shape)
    a = asarr(a, I)
    if isinstance(shape, (int, Arr)) and not (isinstance(shape, Arr) and shape.ndim):
        shape = (shape,)
    shp = list(shape_of(I, shape))
    src_nt = [(j, s) for j, s in enumerate(a.shape) if s is not ONE_T]
    total = ONE_T
    for s in a.shape:
        total = total * s
    if any(s.const() == -1 for s in shp):
        k_ = [i for i, s in enumerate(shp) if s.const() == -1][0]
        known = ONE_T
        for i, s in enumerate(shp):
            if i != k_:
                known = known * s
        shp[k_] = total / known
    tot2 = ONE_T
    for s in shp:
        tot2 = tot2 * s
    if tot2 is not total:
        raise ShapeError("cannot reshape %s into %s" % (a.shape, tuple(shp)))
    dst_nt = [(j, s) for j, s in enumerate(shp) if s is not ONE_T]
    if [s for _, s in src_nt] == [s for _, s in dst_nt]:

        def f(idx):
            out = [ZERO_T] * a.ndim
            for (j, _), (p, _) in zip(src_nt, dst_nt):
                out[j] = idx[p]
            return a.at(out)

        res = mk(shp, f, a.dtype, a.lib)
        res.src = a.src
        return res
    groups = _reshape_groups([x for x in src_nt], [x for x in dst_nt])
    if groups is None:
        raise Unsupported("general reshape", I.loc)

    def g(idx):
        out = [ZERO_T] * a.ndim
        for src, dst in groups:
            flat = ZERO_T
            for p, s in dst:
                flat = flat * s + idx[p]
            for q in range(len(src)):
                rest = ONE_T
                for _, s in src[q + 1 :]:
                    rest = rest * s
                out[src[q][0]] = idiv(flat, rest)
                flat = imod(flat, rest)
        return a.at(out)

    return mk(shp, g, a.dtype, a.lib)


def _reshape_groups(src, dst):
    """runs of axes with equal products"""
    out = []
    i = j = 0
    while i < len(src) or j < len(dst):
        best = None
        for x in range(i + 1, len(src) + 1):
            for y in range(j + 1, len(dst) + 1):
                p = q = ONE_T
                for _, s in src[i:x]:
                    p = p * s
                for _, s in dst[j:y]:
                    q = q * s
                if p is q and (best is None or x + y < sum(best)):
                    best = (x, y)
        if best is None:
            return None
        out.append((src[i : best[0]], dst[j : best[1]]))
        i, j = best
    return out


@model("np.ravel")
def np_ravel(I, a, *r, **k):
    a = asarr(a, I)
    if a.ndim == 1:
        return a
    return np_reshape(I, a, (-1,))


@model("np.size")
def np_size(I, a, axis=None):
    a = asarr(a, I)
    if axis is not None:
        return Arr((), a.shape[normalize_axis(axis, a.ndim)], "i")
    r = ONE_T
    for s in a.shape:
        r = r * s
    return Arr((), r, "i")


@model("np.copy")
def np_copy(I, a, *r, **k):
    return np_array(I, a)


@model("np.count_nonzero")
def np_count_nonzero(I, a, axis=None, keepdims=False):
    if isinstance(a, Op):
        return Op("sum", a)
    a = asarr(a, I)
    b = a if a.dtype == "b" else ew(lambda x: ONE_T - eqz(x), a, dtype="b")
    return np_sum(I, b, axis, keepdims)


@model("np.allclose")
def np_allclose(I, a, b, rtol=F("1e-5"), atol=F("1e-8"), equal_nan=False):
    return np_all(I, np_isclose(I, a, b, rtol, atol))


@model("np.eye", "np.identity")
def np_eye(I, n, m=None, **k):
    n = iterm(n)
    return mk([n, n if m is None else iterm(m)], lambda idx: eqz(idx[0] - idx[1]), "f", "jnp")


@model("np.diag")
def np_diag(I, a, k=0):
    a = asarr(a, I)
    if a.ndim == 1 and iconst(k) == 0:
        return mk([a.shape[0]] * 2, lambda idx: mul(eqz(idx[0] - idx[1]), a.at([idx[0]])), a.dtype, a.lib)
    if a.ndim == 2 and iconst(k) == 0 and a.shape[0] is a.shape[1]:
        return mk([a.shape[0]], lambda idx: a.at([idx[0], idx[0]]), a.dtype, a.lib)
    raise Unsupported("diag", I.loc)


@model("lax.dot")
def lax_dot(I, a, b, **k):
    return np_dot(I, a, b)


@model("np.shape")
def np_shape(I, a):
    return tuple(Arr((), s, "i") for s in asarr(a, I).shape)


@model("np.ndim")
def np_ndim(I, a):
    return asarr(a, I).ndim


@model("np.expand_dims", "lax.expand_dims")
def np_expand_dims(I, a, axis):
    a = asarr(a, I)
    axes = list(axis) if isinstance(axis, (tuple, list)) else [axis]
    nd = a.ndim + len(axes)
    for j in sorted(normalize_axis(x, nd) for x in axes):
        a = expand(a, j)
    return a


@model("np.squeeze", "lax.squeeze")
def np_squeeze(I, a, axis=None):
    a = asarr(a, I)
    if axis is None:
        axes = [j for j, s in enumerate(a.shape) if s is ONE_T]
    else:
        axes = [normalize_axis(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
    for j in sorted(axes, reverse=True):
        if a.shape[j] is not ONE_T:
            raise ShapeError("squeeze of an axis of size %s" % show(a.shape[j]))
        a = take(a, j, ZERO_T)
    return a


@model("np.transpose", "lax.transpose", "np.permute_dims", "np.matrix_transpose")
def np_transpose(I, a, axes=None):
    a = asarr(a, I)
    axes = [normalize_axis(x, a.ndim) for x in axes] if axes is not None else list(range(a.ndim))[::-1]
    shp = [a.shape[j] for j in axes]

    def f(idx):
        out = [None] * a.ndim
        for p, j in enumerate(axes):
            out[j] = idx[p]
        return a.at(out)

    r = mk(shp, f, a.dtype, a.lib)
    r.src = a.src
    return r


@model("np.swapaxes")
def np_swapaxes(I, a, x, y):
    a = asarr(a, I)
    x, y = normalize_axis(x, a.ndim), normalize_axis(y, a.ndim)
    axes = list(range(a.ndim))
    axes[x], axes[y] = axes[y], axes[x]
    return np_transpose(I, a, axes)


@model("np.moveaxis")
def np_moveaxis(I, a, s, d):
    a = asarr(a, I)
    ss = [normalize_axis(x, a.ndim) for x in (s if isinstance(s, (tuple, list)) else [s])]
    dd = [normalize_axis(x, a.ndim) for x in (d if isinstance(d, (tuple, list)) else [d])]
    order = [j for j in range(a.ndim) if j not in ss]
    for p, j in sorted(zip(dd, ss)):
        order.insert(p, j)
    return np_transpose(I, a, order)


@model("np.rollaxis")
def np_rollaxis(I, a, axis, start=0):
    return np_moveaxis(I, a, axis, start if start <= axis else start - 1)


@model("np.broadcast_to", "lax.broadcast")
def np_broadcast_to(I, a, shape):
    return broadcast_to(asarr(a, I), shape_of(I, shape))


@model("np.broadcast_arrays")
def np_broadcast_arrays(I, *xs):
    xs = [asarr(x, I) for x in xs]
    shp = ()
    for x in xs:
        shp = bshape(shp, x.shape)
    return [broadcast_to(x, shp) for x in xs]


@model("np.atleast_1d")
def np_atleast_1d(I, *xs):
    out = []
    for x in xs:
        a = asarr(x, I)
        out.append(expand(a, 0) if a.ndim == 0 else a)
    return out[0] if len(out) == 1 else out


@model("np.atleast_2d")
def np_atleast_2d(I, x):
    a = asarr(x, I)
    while a.ndim < 2:
        a = expand(a, 0)
    return a


@model("np.concatenate", "np.concat", "lax.concatenate")
def np_concatenate(I, xs, axis=0, dimension=None, **k):
    if isinstance(xs, Op):
        return Op("concatenate", xs)
    if dimension is not None:
        axis = dimension
    xs = [asarr(x, I) for x in iterate(I, xs)]
    j = normalize_axis(axis, xs[0].ndim)
    off = ZERO_T
    offs = []
    for x in xs:
        if x.ndim != xs[0].ndim:
            raise ShapeError("concatenate of different ranks")
        for q in range(x.ndim):
            if q != j and x.shape[q] is not xs[0].shape[q]:
                raise ShapeError("concatenate sizes differ")
        offs.append(off)
        off = off + x.shape[j]
    shp = list(xs[0].shape)
    shp[j] = off
    dt = xs[0].dtype
    for x in xs[1:]:
        dt = promote(dt, x.dtype)

    def f(idx):
        i = idx[j]
        r = None
        for x, o in reversed(list(zip(xs, offs))):
            loc = i - o
            el = x.at([(ZERO_T if x.shape[q] is ONE_T else (loc if q == j else idx[q])) for q in range(x.ndim)])
            if r is None:
                r = el
            else:
                r = where(lt(i, o + x.shape[j]), el, r)
        return r

    return mk(shp, f, dt, xs[0].lib)


@model("np.append")
def np_append(I, a, b, axis=None):
    a, b = asarr(a, I), asarr(b, I)
    if axis is None:
        a = np_ravel(I, np_atleast_1d(I, a))
        b = np_ravel(I, np_atleast_1d(I, b))
        axis = 0
    return np_concatenate(I, [a, b], axis)


@model("np.insert")
def np_insert(I, a, pos, v, axis=None):
    a = asarr(a, I)
    p = iconst(pos)
    if p is None or a.ndim != 1:
        raise Unsupported("insert", I.loc)
    v = np_atleast_1d(I, v)
    if p == 0:
        return np_concatenate(I, [v, a])
    return np_concatenate(I, [get_index(I, a, slice(None, p)), v, get_index(I, a, slice(p, None))])


@model("np.hstack", "np.r_")
def np_hstack(I, xs):
    xs = [np_atleast_1d(I, x) for x in iterate(I, xs)]
    return np_concatenate(I, xs, 0 if xs[0].ndim == 1 else 1)


@model("np.vstack", "np.row_stack")
def np_vstack(I, xs):
    return np_concatenate(I, [np_atleast_2d(I, x) for x in iterate(I, xs)], 0)


@model("np.stack")
def np_stack(I, xs, axis=0, **k):
    if isinstance(xs, Arr) and xs.ndim:
        return np_moveaxis(I, xs, 0, axis)
    if isinstance(xs, SeqVal) and xs.size.const() is None:
        return np_moveaxis(I, asarr(xs), 0, axis)
    xs = [asarr(x, I) for x in iterate(I, xs)]
    j = normalize_axis(axis, xs[0].ndim + 1)
    return from_items(xs, j)


@model("np.column_stack")
def np_column_stack(I, xs):
    xs = [asarr(x) for x in iterate(I, xs)]
    return np_concatenate(I, [expand(x, 1) if x.ndim == 1 else x for x in xs], 1)


@model("np.split", "np.array_split", "np.hsplit")
def np_split(I, a, n, axis=0):
    a = asarr(a, I)
    k = iconst(n)
    j = normalize_axis(axis, a.ndim)
    c = a.shape[j].const()
    if k is None or c is None or c % k:
        raise Unsupported("split", I.loc)
    w = int(c) // k
    return [get_index(I, a, tuple([slice(None)] * j + [slice(i * w, (i + 1) * w)])) for i in range(k)]


@model("np.tile")
def np_tile(I, a, reps):
    a = asarr(a, I)
    reps = [iterm(x) for x in (reps if isinstance(reps, (tuple, list)) else [reps])]
    while a.ndim < len(reps):
        a = expand(a, 0)
    reps = [ONE_T] * (a.ndim - len(reps)) + reps
    shp = []
    for s, r in zip(a.shape, reps):
        if r is ONE_T:
            shp.append(s)
        elif s is ONE_T:
            shp.append(r)
        else:
            raise Unsupported("tile", I.loc)
    return Arr(shp, a.body, a.dtype, a.lib)


@model("np.repeat")
def np_repeat(I, a, n, axis=None, **k):
    a = asarr(a, I)
    if a.ndim == 0:
        return broadcast_to(expand(a, 0), (iterm(n),))
    if axis is None and a.ndim == 1 and a.shape[0] is ONE_T:
        return Arr((iterm(n),), a.body, a.dtype, a.lib)
    if axis is not None:
        j = normalize_axis(axis, a.ndim)
        if a.shape[j] is ONE_T:
            return Arr(a.shape[:j] + (iterm(n),) + a.shape[j + 1 :], a.body, a.dtype, a.lib)
    raise Unsupported("repeat", I.loc)


@model("np.pad", "lax.pad")
def np_pad(I, a, width, mode="constant", constant_values=0, **k):
    a = asarr(a, I)
    if a.ndim != 1:
        raise Unsupported("pad of rank > 1", I.loc)
    w = width
    if isinstance(w, (list, tuple)) and len(w) == 1 and isinstance(w[0], (list, tuple)):
        w = w[0]
    if isinstance(w, (list, tuple)):
        lo, hi = iconst(w[0]), iconst(w[-1])
    else:
        lo = hi = iconst(w)
    cv = constant_values
    if isinstance(cv, (list, tuple)):
        if len(cv) == 1:
            cl = ch = cv[0]
        else:
            cl, ch = cv
    else:
        cl = ch = cv
    parts = []
    if mode == "edge":
        cl, ch = take(a, 0, ZERO_T), take(a, 0, a.shape[0] - 1)
    elif mode != "constant":
        raise Unsupported("pad mode", I.loc)
    if lo:
        parts.append(np_full(I, (lo,), cl))
    parts.append(a)
    if hi:
        parts.append(np_full(I, (hi,), ch))
    return np_concatenate(I, parts)


@model("np.take", "np.take_along_axis")
def np_take(I, a, ix, axis=None, **k):
    a = asarr(a, I)
    if axis is None:
        a = np_ravel(I, a)
        axis = 0
    j = normalize_axis(axis, a.ndim)
    return get_index(I, a, tuple([slice(None)] * j + [ix]))


@model("lax.dynamic_slice", "lax.dynamic_slice_in_dim", "lax.dynamic_index_in_dim")
def lax_dyn(I, *a, **k):
    raise Unsupported("dynamic slice", I.loc)


@model("lax.slice_in_dim")
def lax_slice_in_dim(I, a, start, stop, stride=1, axis=0):
    a = asarr(a, I)
    j = normalize_axis(axis, a.ndim)
    return get_index(I, a, tuple([slice(None)] * j + [slice(start, stop, stride)]))


@model("np.meshgrid")
def np_meshgrid(I, *xs, indexing="xy", **k):
    xs = [asarr(x) for x in xs]
    n = len(xs)
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    shp = [xs[o].shape[0] for o in order]
    out = []
    for q, x in enumerate(xs):
        p = order.index(q)
        out.append(mk(shp, lambda idx, x=x, p=p: x.at([idx[p]]), x.dtype, x.lib))
    return out


# ---------------------------------------------------------------- linear algebra


@model("np.einsum")
def np_einsum(I, spec, *ops, **k):
    if not isinstance(spec, str):
        raise Unsupported("einsum operand form", I.loc)
    ops = [asarr(x, I) for x in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = [c for c in ins if c.isalpha()]
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if "." in spec:
        raise Unsupported("einsum ellipsis", I.loc)
    sizes = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ShapeError("einsum rank")
        for c, d in zip(s, o.shape):
            if c in sizes and sizes[c] is not d:
                if d is ONE_T:
                    continue
                raise ShapeError("einsum sizes")
            sizes[c] = d
    shp = [sizes[c] for c in out]

    def f(idx):
        env = dict(zip(out, idx))
        vs = {}
        for c in sizes:
            if c not in env:
                v = idx_atom(fresh_name("es"), sizes[c])
                vs[c] = v
                env[c] = atom_term(v)
        r = ONE_T
        for s, o in zip(ins, ops):
            r = r * o.at([env[c] for c in s])
        for c, v in vs.items():
            r = mk_sum(v, sizes[c], r)
        return r

    return mk(shp, f, "f")


def _contract(a, b, ja, jb):
    if a.shape[ja] is not b.shape[jb]:
        raise ShapeError("contraction sizes %s vs %s" % (show(a.shape[ja]), show(b.shape[jb])))
    n = a.shape[ja]
    sa = a.shape[:ja] + a.shape[ja + 1 :]
    sb = b.shape[:jb] + b.shape[jb + 1 :]

    def f(idx):
        ia, ib = idx[: len(sa)], idx[len(sa) :]
        v = idx_atom(fresh_name("dt"), n)
        vt = atom_term(v)
        return mk_sum(v, n, a.at(ia[:ja] + [vt] + ia[ja:]) * b.at(ib[:jb] + [vt] + ib[jb:]))

    return mk(sa + sb, f, promote(a.dtype, b.dtype))


@model("np.dot", "np.inner", "np.vdot")
def np_dot(I, a, b, **k):
    a, b = asarr(a, I), asarr(b, I)
    if a.ndim == 0 or b.ndim == 0:
        return ew(mul, a, b)
    return _contract(a, b, a.ndim - 1, max(b.ndim - 2, 0))


@model("np.matmul")
def np_matmul(I, a, b, **k):
    a, b = asarr(a, I), asarr(b, I)
    if a.ndim <= 2 and b.ndim <= 2:
        return np_dot(I, a, b)
    if b.ndim <= 2:
        return _contract(a, b, a.ndim - 1, max(b.ndim - 2, 0))
    raise Unsupported("batched matmul", I.loc)


@model("np.tensordot")
def np_tensordot(I, a, b, axes=2, **k):
    a, b = asarr(a, I), asarr(b, I)
    if isinstance(axes, int):
        aa = list(range(a.ndim - axes, a.ndim))
        bb = list(range(axes))
    else:
        aa, bb = axes
        aa = [normalize_axis(x, a.ndim) for x in (aa if isinstance(aa, (list, tuple)) else [aa])]
        bb = [normalize_axis(x, b.ndim) for x in (bb if isinstance(bb, (list, tuple)) else [bb])]
    la = _string.ascii_letters[: a.ndim]
    lb = list(_string.ascii_letters[a.ndim : a.ndim + b.ndim])
    for x, y in zip(aa, bb):
        if a.shape[x] is not b.shape[y]:
            raise ShapeError("tensordot sizes %s vs %s" % (show(a.shape[x]), show(b.shape[y])))
        lb[y] = la[x]
    out = [c for i, c in enumerate(la) if i not in aa] + [c for i, c in enumerate(lb) if i not in bb]
    return np_einsum(I, "%s,%s->%s" % (la, "".join(lb), "".join(out)), a, b)


@model("np.outer", "np.multiply.outer")
def np_outer(I, a, b, **k):
    a, b = np_ravel(I, np_atleast_1d(I, a)), np_ravel(I, np_atleast_1d(I, b))
    return mk((a.shape[0], b.shape[0]), lambda i: a.at([i[0]]) * b.at([i[1]]), promote(a.dtype, b.dtype))


@model("np.polyval")
def np_polyval(I, p, x, **k):
    ps = iterate(I, asarr(p)) if not isinstance(p, (list, tuple)) else p
    r = asarr(0)
    for c in ps:
        r = ew(add, ew(mul, r, x), c)
    return r


@model("np.vander")
def np_vander(I, x, N=None, increasing=False):
    x = asarr(x, I)
    n = iconst(N) if N is not None else None
    if n is None:
        raise Unsupported("vander", I.loc)
    cols = [ew(lambda t, p=p: power(t, F(p)), x) for p in (range(n) if increasing else range(n - 1, -1, -1))]
    return from_items(cols, 1)


@model("np.linalg.lstsq")
def np_lstsq(I, A, b, rcond=None, **k):
    A, b = asarr(A, I), asarr(b, I)
    rows, cols = A.shape
    nc = cols.const()
    if nc is None:
        raise Unsupported("lstsq with symbolic column count", I.loc)
    nc = int(nc)
    v = idx_atom(fresh_name("lq"), rows)
    vt = atom_term(v)
    lams, scales = [], []
    for j in range(nc):
        col = A.at([vt, num(j)])
        # column scaling: lstsq coefficients scale inversely
        s = ONE_T
        if col.monos:
            c, g, base = content(col)
            gf = tuple((a, e) for a, e in g if v not in a.deps and a.kind != "ind")
            st = mul(num(c), mono_term(gf)) if gf else num(c)
            s = st
            col = col / st
        lams.append(mk_lam(v, rows, col))
        scales.append(s)
    if b.ndim != 1 or b.shape[0] is not rows:
        raise Unsupported("lstsq right-hand side", I.loc)
    bl = mk_lam(v, rows, b.at([vt]))
    items = [scalar(fn("lstsq", num(j), *lams, bl) / scales[j]) for j in range(nc)]
    x = from_items(items)
    op = lambda n: Arr((), fn("lstsq-" + n, *lams, bl, opaque=True))
    return (x, op("resid"), op("rank"), op("s"))


@model("np.linalg.norm")
def np_norm(I, a, axis=None, **k):
    a = asarr(a, I)
    return ew(lambda t: power(t, F(1, 2)), np_sum(I, ew(lambda t: t * t, a), axis))


@model("np.cov", "np.corrcoef")
def np_cov(I, *a, **k):
    raise Unsupported("cov", I.loc)


# ---------------------------------------------------------------- lax control flow


@model("lax.map")
def lax_map(I, f, xs, **k):
    return call_vmap(I, VMap(f, 0, 0), [xs], {})


@model("lax.stop_gradient")
def lax_stop_gradient(I, x):
    I.event("grad-block", name="stop_gradient", value=x)
    return x


@model("lax.convert_element_type")
def lax_cet(I, x, d):
    return cast(I, x, d)


@model("lax.scan")
def lax_scan(I, f, init, xs=None, length=None, reverse=False, unroll=1, **k):
    xl = leaves(xs) if xs is not None else []
    xl = [asarr(x, I) for x in xl]
    if xl:
        n = xl[0].shape[0]
        for x in xl:
            if x.shape[0] is not n:
                raise ShapeError("scan lengths differ")
    else:
        n = iterm(length)
    c = n.const()
    if reverse:
        xs = tree1(lambda x: np_flip(I, asarr(x), 0), xs)
        carry, ys = lax_scan(I, f, init, xs, length)
        return carry, (tree1(lambda y: np_flip(I, y, 0), ys) if ys is not None else None)
    if c is not None and c <= 16:
        carry, outs = init, []
        for i in range(int(c)):
            x = tree1(lambda a: take(asarr(a), 0, num(i)), xs) if xs is not None else None
            carry, y = iterate(I, I.call(f, [carry, x], {}))
            outs.append(y)
        ys = None
        if outs and outs[0] is not None:
            ys = treeN(lambda *a: from_items([asarr(x) for x in a]), outs)
        return (carry, ys)
    v = idx_atom(fresh_name("sc"), n)
    vt = atom_term(v)
    x_i = tree1(lambda a: take(asarr(a), 0, vt), xs) if xs is not None else None
    il = leaves(init)
    ph, phs = [], []
    for q, c0 in enumerate(il):
        a = asarr(c0, I)
        name = "scan%d_%d" % (fresh_name()[1], q)
        s = sym(name, *[atom_term(a.axvar(j)) for j in range(a.ndim)])
        ph.append(Arr(a.shape, s, "f"))
        phs.append(name)
    it = iter(ph)
    carry_in = tree1(lambda _: next(it), init)
    res = iterate(I, I.call(f, [carry_in, x_i], {}))
    if len(res) != 2:
        raise PyRaise("TypeError", ("scan body must return a pair",), I.loc)
    cnew, y = res
    nl = [unboxed(asarr(x, I)) for x in leaves(cnew)]
    if len(nl) != len(il):
        raise PyRaise("TypeError", ("scan carry structure changed",), I.loc)
    # closed forms at step i (Term of index) for each carry
    closed = {}

    def deps(t):
        return [q for q, nm in enumerate(phs) if nm in t.deps]

    def sub_at(t, i):
        """carry placeholders -> closed form at index i; step index -> i"""
        t = subst(t, {v: i}) if v in t.deps else t
        sf = {}
        for q, nm in enumerate(phs):
            if nm in t.deps:
                sf[nm] = (lambda q: lambda *ix: closed[q](i, ix))(q)
        return subst(t, {}, sf) if sf else t

    prog = True
    while prog and len(closed) < len(il):
        prog = False
        for q in range(len(il)):
            if q in closed:
                continue
            t = nl[q].body
            a0 = asarr(il[q], I)
            d = deps(t)
            others = [x for x in d if x != q]
            if any(x not in closed for x in others):
                continue
            me = ph[q].body
            if q not in d:
                # delayed value

                def cl(i, ix, t=t, a0=a0):
                    z = eqz(i)
                    prev = at_axes(sub_at(t, i - 1), a0, ix)
                    return where(z, at_axes(a0.body, a0, ix), prev)

                closed[q] = cl
                prog = True
            elif t is me:
                closed[q] = lambda i, ix, a0=a0: at_axes(a0.body, a0, ix)
                prog = True
            else:
                delta = t - me
                if phs[q] not in delta.deps:
                    w = idx_atom(fresh_name("sp"), n)

                    def cl(i, ix, delta=delta, a0=a0, w=w):
                        body = sub_at(delta, atom_term(w))
                        return at_axes(a0.body + mk_sum(w, i, body), a0, ix)

                    closed[q] = cl
                    prog = True
    if len(closed) < len(il):
        raise Unsupported("scan recurrence without closed form", I.loc)
    ys = None
    if y is not None:

        def outy(a):
            a = unboxed(asarr(a, I))
            body = sub_at(a.body, vt)
            return add_axis(Arr(a.shape, body, a.dtype), 0, n, v)

        ys = tree1(outy, y)
    fin = [Arr(a.shape, closed_final(q, closed, n, a), a.dtype) for q, a in enumerate(nl)]
    it2 = iter(fin)
    carry = tree1(lambda _: next(it2), init)
    return (carry, ys)


def unboxed(a):
    return Arr(a.shape, T.unbox(a.body), a.dtype, a.lib, a.src) if "!box" in a.body.deps else a


def closed_final(q, closed, n, a):
    return closed[q](n, [atom_term(a.axvar(j)) for j in range(a.ndim)])


def at_axes(t, a, ix):
    if not ix:
        return t
    return subst(t, {a.axvar(j): i for j, i in enumerate(ix)})


def leaves(t):
    if t is None:
        return []
    if isinstance(t, NTInst):
        return [y for x in t.vals for y in leaves(x)]
    if isinstance(t, (list, tuple)):
        return [y for x in t for y in leaves(x)]
    if isinstance(t, dict):
        return [y for k in sorted(t) for y in leaves(t[k])]
    return [t]


def tree1(f, t):
    if t is None:
        return None
    if isinstance(t, NTInst):
        return NTInst(t.cls, [tree1(f, x) for x in t.vals])
    if isinstance(t, (list, tuple)):
        return type(t)(tree1(f, x) for x in t)
    if isinstance(t, dict):
        return {k: tree1(f, t[k]) for k in sorted(t)}
    return f(t)


def treeN(f, ts):
    t = ts[0]
    if t is None:
        return None
    if isinstance(t, NTInst):
        return NTInst(t.cls, [treeN(f, [x.vals[i] for x in ts]) for i in range(len(t.vals))])
    if isinstance(t, (list, tuple)):
        return type(t)(treeN(f, [x[i] for x in ts]) for i in range(len(t)))
    return f(*ts)


@model("lax.fori_loop")
def lax_fori(I, lo, hi, body, init, **k):
    a, b = iconst(lo), iconst(hi)
    if a is not None and b is not None and b - a <= 16:
        st = init
        for i in range(a, b):
            st = I.call(body, [i, st], {})
        return st
    lo_t, n = iterm(lo), iterm(hi) - iterm(lo)
    idx = mk((n,), lambda i: lo_t + i[0], "i")
    # array carries updated by at[i].set are not closed forms: scan decides
    f = Builtin("fori", lambda I, c, x: (I.call(body, [x, c], {}), None))
    return lax_scan(I, f, init, idx)[0]


@model("lax.while_loop")
def lax_while(I, *a, **k):
    raise Unsupported("while_loop", I.loc)


# ---------------------------------------------------------------- scipy.stats / nn


@model("scipy.stats.norm.pdf")
def norm_pdf(I, x, loc=0, scale=1):
    def f(x, m, s):
        z = (x - m) / s
        return exp(-z * z / 2) / s / power(2 * PI, F(1, 2))

    return ew(f, asarr(x, I), asarr(loc, I), asarr(scale, I), dtype="f")


@model("scipy.stats.norm.logpdf")
def norm_logpdf(I, x, loc=0, scale=1):
    def f(x, m, s):
        z = (x - m) / s
        return -z * z / 2 - ln(s) - ln(2 * PI) / 2

    return ew(f, asarr(x, I), asarr(loc, I), asarr(scale, I), dtype="f")


@model("scipy.stats.norm.cdf")
def norm_cdf(I, x, loc=0, scale=1):
    return ew(lambda x, m, s: (1 + _fnunary("erf")((x - m) / s / power(num(2), F(1, 2)))) / 2, x, loc, scale, dtype="f")


@model("nn.softmax")
def nn_softmax(I, x, axis=-1, **k):
    x = asarr(x, I)
    e = ew(exp, x)
    return ew(lambda a, b: a / b, e, np_sum(I, e, axis, True))


# ---------------------------------------------------------------- PRNG


class KeyArr:
    def __init__(self, base, n):
        self.base, self.n = base, n

    def item(self, k):
        return KeyVal(self.base + (("split", self.n, k),))


def use_key(I, key, how):
    if isinstance(key, KeyVal):
        I.event("key-use", key=key.path, how=how)
        return key.path
    if isinstance(key, KeyArr):
        raise Unsupported("array of keys consumed", I.loc)
    I.event("key-use", key=("value", repr(key)), how=how)
    return ("value", repr(key))


@model("jran.PRNGKey", "jran.key")
def jr_key(I, seed, **k):
    return KeyVal((("seed", repr(vkey(seed))),))


@model("jran.split")
def jr_split(I, key, num=2):
    n = iconst(num)
    p = use_key(I, key, "split")
    if n is None:
        raise Unsupported("symbolic key split", I.loc)
    return KeyArr(p, n)


@model("jran.fold_in")
def jr_fold(I, key, d):
    p = key.path if isinstance(key, KeyVal) else (repr(key),)
    return KeyVal(p + (("fold", repr(vkey(d))),))


def _rand(kind):
    def m(I, key, shape=(), dtype=None, *a, **k):
        p = use_key(I, key, kind)
        if dtype is not None and dtype_name(dtype) in NARROW:
            I.event("narrow-cast", to=dtype_name(dtype), value=None)
        shp = shape_of(I, shape)
        return mk(shp, lambda idx: fn("rand:" + kind, repr(p), *idx), "f")

    return m


@model("jran.uniform")
def jr_uniform(I, key, shape=(), dtype=None, minval=0, maxval=1):
    p = use_key(I, key, "uniform")
    if isinstance(dtype, (int, F, Arr)):
        minval, dtype = dtype, None
    if dtype is not None and dtype_name(dtype) in NARROW:
        I.event("narrow-cast", to=dtype_name(dtype), value=None)
    shp = shape_of(I, shape)
    u = mk(shp, lambda idx: fn("uniform01", repr(p), *idx), "f")
    return ew(lambda u, a, b: a + (b - a) * u, u, asarr(minval, I), asarr(maxval, I), dtype="f")


for _n in "normal exponential gumbel randint bernoulli choice permutation truncated_normal gamma beta poisson".split():
    REG["jran." + _n] = _rand(_n)


@model("jran.normal")
def jr_normal(I, key, shape=(), dtype=None):
    p = use_key(I, key, "normal")
    shp = shape_of(I, shape)
    return mk(shp, lambda idx: fn("normal01", repr(p), *idx), "f")


# ================================================================ paths


@model("os.path.join", "posixpath.join")
def m_osjoin(I, *parts):
    return path_str(path_join(*parts))


@model("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath")
def m_path(I, *parts):
    return path_join(*parts) if parts else path_join(".")


@model("os.path.abspath", "os.path.realpath", "os.path.normpath", "os.path.expanduser", "os.fspath")
def m_abspath(I, p):
    return p


@model("os.path.dirname")
def m_dirname(I, p):
    return path_str(path_parent(p))


@model("os.path.basename")
def m_basename(I, p):
    p = path_join(p)
    return p.args[-1]


@model("os.path.isfile")
def m_isfile(I, p):
    return Op("isfile", path_str(p))


@model("os.path.isdir")
def m_isdir(I, p):
    return Op("isdir", path_str(p))


@model("os.path.exists")
def m_exists(I, p):
    return Op("exists", path_str(p))


def path_method(I, o, name, args):
    if name in ("resolve", "absolute", "as_posix", "expanduser"):
        return o
    if name == "joinpath":
        return path_join(o, *args)
    if name == "exists" and I.host is not None:
        return I.host.exists(I, "file", o)
    if name == "exists":
        return Op("exists", path_str(o))
    if name == "is_file" and I.host is not None:
        return I.host.exists(I, "file", o)
    if name == "is_file":
        return Op("isfile", path_str(o))
    if name == "is_dir" and I.host is not None:
        return I.host.exists(I, "directory", o)
    if name == "is_dir":
        return Op("isdir", path_str(o))
    if name == "open":
        return I.call(builtin("open"), [o] + list(args), {})
    if name == "glob" and I.host is not None:
        return I.host.c_glob_glob(I, path_join(o, *args))
    if name in ("read_text",) and I.host is not None:
        return I.host.open(I, o).text
    if name == "with_name":
        return path_join(path_parent(o), *args)
    return Op("m:" + name, o, *args)
