"""Abstract values of the interpreter."""
from fractions import Fraction as F

from . import terms as T
from .terms import Term, lift, subst, atom_term, idx_atom, ONE_T, ZERO_T


def ax(k, size):
    """canonical index variable of the k-th axis counted from the right"""
    return idx_atom(("a", k), size)


class ShapeError(Exception):
    pass


class Arr:
    """array as an index -> Term function; axis k from the right is variable ax(k)"""

    __slots__ = ("shape", "body", "dtype", "lib", "src", "mut", "meta")

    def __init__(self, shape, body, dtype="f", lib="jnp", src=None):
        self.shape = tuple(lift(s) for s in shape)
        self.body = body
        self.dtype = dtype  # f i b or p:<param>
        self.lib = lib
        self.src = src  # name of the parameter this value *is* (aliases caller memory)
        self.meta = None

    @property
    def ndim(self):
        return len(self.shape)

    def axvar(self, j):
        """index variable of axis j counted from the left"""
        return ax(self.ndim - 1 - j, self.shape[j])

    def at(self, idxs):
        idxs = [lift(i) for i in idxs]
        mp = {}
        for j, i in enumerate(idxs):
            v = self.axvar(j)
            if len(i.monos) == 1 and i.monos[0][0] == ((v, 1),) and i.monos[0][1] == 1:
                continue
            mp[v] = i
        return subst(self.body, mp) if mp else self.body

    def __repr__(self):
        return "Arr(%s: %s)" % ("x".join(map(T.show, self.shape)), T.show(self.body, 200))


def one(s):
    return s is ONE_T


def mk(shape, f, dtype="f", lib="jnp"):
    shape = tuple(lift(s) for s in shape)
    n = len(shape)
    idx = [ZERO_T if s is ONE_T else atom_term(ax(n - 1 - j, s)) for j, s in enumerate(shape)]
    return Arr(shape, f(idx), dtype, lib)


def scalar(t, dtype="f"):
    return Arr((), lift(t), dtype)


class Op:
    """opaque structured host value: equality is structural"""

    __slots__ = ("name", "args", "attrs")

    def __init__(self, name, *args):
        self.name = name
        self.args = args

    def key(self):
        return (self.name,) + tuple(vkey(a) for a in self.args)

    def __repr__(self):
        if not self.args:
            return self.name
        return "%s(%s)" % (self.name, ", ".join(map(srepr, self.args)))


class HObj:
    """object of the abstract environment (sa/hostworld.py)"""

    def h_key(self):
        return ("hobj", id(self))

    def h_truth(self):
        return True

    def h_getattr(self, I, name):
        return Bound(self, name)

    def h_array(self, I, dtype):
        return self


def srepr(v):
    if isinstance(v, Arr):
        if v.shape == ():
            return T.show(v.body, 120)
        return repr(v)
    return repr(v)


def vkey(v):
    if isinstance(v, HObj):
        return ("h",) + tuple(v.h_key())
    if isinstance(v, Op):
        return ("op",) + v.key()
    if isinstance(v, Arr):
        return ("arr", tuple(s.key for s in v.shape), v.body.key)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(vkey(x) for x in v)
    if isinstance(v, NTInst):
        return ("nt", v.cls.name, tuple(vkey(x) for x in v.vals))
    if isinstance(v, dict):
        return ("dict",) + tuple((vkey(k), vkey(x)) for k, x in v.items())
    if isinstance(v, (int, float, F, str, bytes, bool, type(None))):
        return (type(v).__name__, v)
    if isinstance(v, Ext):
        return ("ext", v.name)
    return ("obj", id(v))


class NTClass:
    def __init__(self, name, fields, defaults=None, node=None, mod=None):
        self.name, self.fields, self.defaults = name, fields, defaults or {}
        self.node, self.mod = node, mod

    def __repr__(self):
        return "<class %s%s>" % (self.name, tuple(self.fields) if isinstance(self.fields, list) else self.fields)


class NTInst:
    def __init__(self, cls, vals):
        self.cls, self.vals = cls, list(vals)

    def get(self, f):
        return self.vals[self.cls.fields.index(f)]

    def __repr__(self):
        return "%s(%s)" % (
            self.cls.name,
            ", ".join("%s=%s" % (f, srepr(v)) for f, v in zip(self.cls.fields, self.vals)),
        )


class Ext:
    """reference into an external library, by dotted name"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


class Func:
    def __init__(self, node, mod, env, name, defaults, kwdefaults, qual):
        self.node, self.mod, self.env, self.name = node, mod, env, name
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual
        self.jitted = False
        self.jit_opts = {}
        self.attrs = {}

    def __repr__(self):
        return "<function %s>" % self.qual


class Partial:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, tuple(args), dict(kwargs)
        self.attrs = {}


class VMap:
    def __init__(self, f, in_axes, out_axes):
        self.f, self.in_axes, self.out_axes = f, in_axes, out_axes
        self.attrs = {}


class JitWrap:
    def __init__(self, f, opts):
        self.f, self.opts = f, opts
        self.attrs = {}


class Bound:
    """method of an abstract value"""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.env = {}
        self.src = None
        self.tree = None

    def __repr__(self):
        return "<module %s>" % self.name


class KeyVal:
    """PRNG key with its derivation path"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "key<%s>" % (self.path,)


class Super:
    pass


class SeqVal:
    """sequence of symbolic length: element at index Term"""

    def __init__(self, size, at, kind="list"):
        self.size, self.at, self.kind = size, at, kind
