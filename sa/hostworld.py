"""Abstract environment for code that talks to the operating system and to files.

Nothing is opened or executed: paths, environment values and file contents are
symbols; questions about the environment (is the variable set, does the file
exist, how many names match the pattern) are decided both ways by the path
enumeration of the interpreter."""
import ast
import os
from fractions import Fraction as F

from . import terms as T
from . import models as M
from .absint import PyRaise, Unsupported
from .terms import ONE_T, atom_term, fn, num, sym
from .values import *


def err(exc, *a, I=None):
    return PyRaise(exc, a, I.loc if I else None)


# ------------------------------------------------------------------ paths


def pieces(v):
    """flat sequence of literal strings and opaque values of a path-like value"""
    if isinstance(v, str):
        return [v]
    if isinstance(v, Op):
        if v.name == "join":
            out = []
            for i, p in enumerate(v.args):
                if i:
                    out.append("/")
                out += pieces(p)
            return out
        if v.name == "fstr":
            if v.args and isinstance(v.args[0], str) and "{" in v.args[0]:
                return fmt_pieces(v)
            out = []
            for p in v.args:
                out += pieces(p)
            return out
        if v.name == "strop:Add":
            return pieces(v.args[0]) + pieces(v.args[1])
        if v.name in ("str", "strm:rstrip") and len(v.args) >= 1:
            return pieces(v.args[0])
        if v.name == "strop:Mod" or v.name == "strjoin":
            if v.name == "strjoin" and isinstance(v.args[0], str) and isinstance(v.args[1], (list, tuple)):
                out = []
                for i, p in enumerate(v.args[1]):
                    if i:
                        out.append(v.args[0])
                    out += pieces(p)
                return out
    return [v]


def fmt_pieces(v):
    import string

    out, k = [], 0
    for lit, field, spec, conv in string.Formatter().parse(v.args[0]):
        if lit:
            out.append(lit)
        if field is not None:
            i = int(field) if field.isdigit() else k
            k += 1
            if not (field == "" or field.isdigit()) or i + 1 >= len(v.args):
                return [v]
            out += pieces(v.args[i + 1])
    return out


def npath(v):
    """canonical path: tuple of components, each a tuple of literal / opaque pieces"""
    comps, cur = [], []
    for p in pieces(v):
        if isinstance(p, str):
            bits = p.split("/")
            for i, b in enumerate(bits):
                if i:
                    comps.append(tuple(cur))
                    cur = []
                if b:
                    if cur and isinstance(cur[-1], str):
                        cur[-1] += b
                    else:
                        cur.append(b)
        else:
            cur.append(p)
    comps.append(tuple(cur))
    out = []
    for i, c in enumerate(comps):
        if c in ((), (".",)) and i:
            continue
        if c == ("..",) and out and out[-1] not in ((), ("..",)):
            out.pop()
            continue
        out.append(c)
    return tuple(out)


def pkey(v):
    return tuple(tuple(x if isinstance(x, str) else vkey(x) for x in c) for c in npath(v))


def pshow(v):
    return "/".join("".join(x if isinstance(x, str) else repr(x) for x in c) for c in npath(v))


# ------------------------------------------------------------------ small constant vectors


class StrArr(HObj):
    """1-d array of known strings or bytes"""

    def __init__(self, items, kind=None):
        self.items = list(items)
        self.kind = kind or ("S" if self.items and isinstance(self.items[0], bytes) else "U")

    def h_key(self):
        return ("strarr", self.kind) + tuple(self.items)

    def h_getitem(self, I, ix):
        if ix is Ellipsis or ix == ():
            return StrArr(self.items, self.kind)
        if isinstance(ix, slice):
            return StrArr(self.items[slice(*[None if x is None else M.iconst(x) for x in (ix.start, ix.stop, ix.step)])], self.kind)
        if isinstance(ix, tuple) and len(ix) == 1:
            return self.h_getitem(I, ix[0])
        js = indices(I, ix, len(self.items))
        if js is not None:
            return StrArr([self.items[j] for j in js], self.kind)
        k = M.iconst(ix)
        if k is None:
            raise Unsupported("symbolic index of a string array", I.loc)
        if not -len(self.items) <= k < len(self.items):
            raise err("IndexError", I=I)
        return self.items[k]

    def h_iter(self, I):
        return list(self.items)

    def h_len(self, I):
        return len(self.items)

    def h_getattr(self, I, name):
        if name == "size":
            return len(self.items)
        if name == "shape":
            return (len(self.items),)
        if name == "ndim":
            return 1
        if name == "dtype":
            return Op("dtype", self.kind)
        if name in ("item", "tolist", "astype", "copy", "flatten", "ravel", "squeeze"):
            return Bound(self, name)
        raise err("AttributeError", name, I=I)

    def h_method(self, I, name, args, kwargs):
        if name == "item":
            if not args and len(self.items) != 1:
                raise err("ValueError", "item of an array of size %d" % len(self.items), I=I)
            return self.items[M.iconst(args[0]) if args else 0]
        if name == "tolist":
            return list(self.items)
        if name == "squeeze" and len(self.items) == 1:
            return self.items[0]
        if name == "astype":
            return to_strarr(self.items, M.dtype_name(args[0]), I)
        return StrArr(self.items, self.kind)

    def h_contains(self, I, x):
        return x in self.items

    def h_array(self, I, dtype):
        return StrArr(self.items, self.kind) if dtype is None else conv_array(I, self.items, dtype)

    def h_compare(self, I, op, a, b):
        o = b if a is self else a
        if isinstance(o, (str, bytes)):
            r = [x == o for x in self.items]
        elif isinstance(o, StrArr) and len(o.items) == len(self.items):
            r = [x == y for x, y in zip(self.items, o.items)]
        else:
            raise Unsupported("string array comparison", I.loc)
        return CVec([v if op == "Eq" else not v for v in r])

    def __repr__(self):
        return "array(%r)" % (self.items,)


def to_strarr(items, dt, I):
    if dt is None or dt.startswith(("U", "<U", "str", "object")):
        return StrArr([x.decode("ascii") if isinstance(x, bytes) else x for x in items], "U")
    if dt.startswith(("S", "|S", "bytes")):
        return StrArr([x.encode("ascii") if isinstance(x, str) else x for x in items], "S")
    raise Unsupported("string array dtype " + dt, I.loc)


def conv_array(I, items, dtype):
    dt = M.dtype_name(dtype) if dtype is not None else None
    if dt is not None and (dt.startswith("float") or dt.startswith("int")):
        try:
            return CVec([F(x.decode() if isinstance(x, bytes) else x.strip()) for x in items])
        except ValueError:
            raise err("ValueError", "not a number", I=I)
    if dt is None:
        return StrArr(items)
    return to_strarr(items, dt, I)


def indices(I, ix, n):
    """positions selected by a mask, index vector or list; None for a scalar index"""
    if isinstance(ix, CVec):
        if all(isinstance(x, bool) for x in ix.items) and ix.items:
            if len(ix.items) != n:
                raise err("IndexError", "mask length", I=I)
            return [j for j, x in enumerate(ix.items) if x]
        return [int(x) for x in ix.items]
    if isinstance(ix, (list, tuple)) and all(isinstance(x, int) for x in ix):
        return list(ix)
    if isinstance(ix, Arr) and ix.ndim == 1 and ix.shape[0].const() is not None:
        if ix.dtype == "b":
            v = as_cvec(ix)
            if v is None:
                raise Unsupported("mask with unknown entries", I.loc)
            return indices(I, v, n)
        out = [M.iconst(M.take(ix, 0, num(k))) for k in range(int(ix.shape[0].const()))]
        return None if any(k is None for k in out) else out
    return None


def as_cvec(x):
    """an array of known numbers as a constant vector, else None"""
    if isinstance(x, CVec):
        return x
    if not isinstance(x, Arr) or x.ndim != 1 or x.shape[0].const() is None or x.shape[0].const() > 4096:
        return None
    key = (x.body, x.shape[0], x.dtype)
    if key not in KNOWN:
        KNOWN[key] = _as_cvec(x)
    return None if KNOWN[key] is None else CVec(KNOWN[key])


KNOWN = {}


def _as_cvec(x):
    out = []
    for k in range(int(x.shape[0].const())):
        c = M.take(x, 0, num(k)).body.const()
        if c is None:
            return None
        out.append(bool(c) if x.dtype == "b" else F(c))
    return out


def known(x):
    if isinstance(x, Arr) and x.ndim == 0 and x.body.const() is not None:
        return F(x.body.const())
    return x


class CVec(HObj):
    """1-d vector of known numbers or booleans"""

    def __init__(self, items):
        self.items = list(items)

    def h_key(self):
        return ("cvec",) + tuple(self.items)

    def h_getitem(self, I, ix):
        if ix is Ellipsis or ix == ():
            return CVec(self.items)
        if isinstance(ix, slice):
            return CVec(self.items[slice(*[None if x is None else M.iconst(x) for x in (ix.start, ix.stop, ix.step)])])
        if isinstance(ix, tuple) and len(ix) == 1:
            return self.h_getitem(I, ix[0])
        js = indices(I, ix, len(self.items))
        if js is not None:
            return CVec([self.items[j] for j in js])
        k = M.iconst(ix)
        if k is None:
            raise Unsupported("symbolic index of a constant vector", I.loc)
        if not -len(self.items) <= k < len(self.items):
            raise err("IndexError", I=I)
        return self.items[k]

    def h_iter(self, I):
        return list(self.items)

    def h_len(self, I):
        return len(self.items)

    def h_getattr(self, I, name):
        if name == "size":
            return len(self.items)
        if name == "shape":
            return (len(self.items),)
        if name == "ndim":
            return 1
        if name == "dtype":
            return Op("dtype", "b" if self.items and isinstance(self.items[0], bool) else "f")
        return Bound(self, name)

    def h_method(self, I, name, args, kwargs):
        r = self.red(I, name)
        if r is not NotImplemented:
            return r
        if name == "item":
            if not args and len(self.items) != 1:
                raise err("ValueError", "item", I=I)
            return self.items[M.iconst(args[0]) if args else 0]
        if name == "tolist":
            return list(self.items)
        if name == "nonzero":
            return (CVec([j for j, x in enumerate(self.items) if x]),)
        if name in ("copy", "flatten", "ravel", "astype"):
            return CVec(self.items)
        raise Unsupported("method %s of a constant vector" % name, I.loc)

    def red(self, I, name):
        v = self.items
        if name == "sum":
            return sum(v, F(0)) if v and not isinstance(v[0], bool) else sum(v)
        if name == "any":
            return any(v)
        if name == "all":
            return all(v)
        if name in ("min", "max", "argmin", "argmax"):
            if not v:
                raise err("ValueError", name, I=I)
            b = min(v) if name.endswith("min") else max(v)
            return v.index(b) if name.startswith("arg") else b
        return NotImplemented

    def h_array(self, I, dtype):
        return CVec(self.items)

    def zipw(self, I, f, a, b):
        n = len(self.items)
        a, b = [x if isinstance(x, CVec) else as_cvec(x) or known(x) for x in (a, b)]
        va = a.items if isinstance(a, CVec) else [a] * n
        vb = b.items if isinstance(b, CVec) else [b] * n
        if len(va) != len(vb) or not all(isinstance(x, (int, F)) for x in va + vb):
            raise Unsupported("constant vector operand", I.loc)
        return CVec([f(x, y) for x, y in zip(va, vb)])

    def h_binop(self, I, op, a, b):
        if op in ("BitAnd", "BitOr"):
            return self.zipw(I, (lambda x, y: x and y) if op == "BitAnd" else (lambda x, y: x or y), a, b)
        return self.zipw(I, lambda x, y: M.num_binop(I, op, F(x), F(y)), a, b)

    def h_compare(self, I, op, a, b):
        return self.zipw(I, lambda x, y: M.PYCMP[op](x, y), a, b)

    def h_arr(self, I):
        return M.from_items([M.asarr(F(x) if not isinstance(x, bool) else x) for x in self.items])

    def __repr__(self):
        return "vector(%s)" % ", ".join(str(float(x)) for x in self.items[:6])


def cv_isclose(I, a, b, rtol=F("1e-5"), atol=F("1e-8"), equal_nan=False):
    a, b = known(a), known(b)
    v = as_cvec(a) or as_cvec(b)
    return v.zipw(I, lambda x, y: abs(F(x) - F(y)) <= F(atol) + F(rtol) * abs(F(y)), a, b)


# ------------------------------------------------------------------ environment


class Environ(HObj):
    def __init__(self, w):
        self.w = w

    def h_key(self):
        return ("environ",)

    def val(self, I, k, dflt, must):
        if self.w.ask(I, "environment variable is set", k):
            return Op("env", k)
        if must:
            raise err("KeyError", k, I=I)
        return dflt

    def h_getitem(self, I, k):
        return self.val(I, k, None, True)

    def h_setitem(self, I, k, v):
        I.event("environ-write", key=k)

    def h_contains(self, I, k):
        return self.w.ask(I, "environment variable is set", k)

    def h_getattr(self, I, name):
        return Bound(self, name)

    def h_method(self, I, name, args, kwargs):
        if name == "get":
            return self.val(I, args[0], args[1] if len(args) > 1 else kwargs.get("default"), False)
        if name in ("setdefault", "update", "pop"):
            I.event("environ-write", key=args)
        raise Unsupported("os.environ." + name, I.loc)


class HFile(HObj):
    """HDF5 file: named datasets, readable while open"""

    def __init__(self, w, path, mode, data):
        self.w, self.path, self.mode, self.data = w, path, mode, data
        self.closed = False
        self.attrs = {}

    def live(self, I):
        if self.closed:
            raise err("ValueError", "HDF5 file is closed", I=I)

    def h_getitem(self, I, k):
        self.live(I)
        if isinstance(k, bytes):
            k = k.decode()
        if k not in self.data:
            raise err("KeyError", "no dataset %s" % (k,), I=I)
        return HData(self, k)

    def h_setitem(self, I, k, v):
        self.live(I)
        if self.mode == "r":
            raise err("OSError", "file opened read-only", I=I)
        if k in self.data:
            raise err("OSError", "dataset %s exists" % (k,), I=I)
        self.data[k] = stored(I, v)

    def h_contains(self, I, k):
        self.live(I)
        return k in self.data

    def h_iter(self, I):
        self.live(I)
        return sorted(self.data)

    def h_len(self, I):
        return len(self.data)

    def h_getattr(self, I, name):
        if name == "attrs":
            return self.attrs
        if name in ("filename", "name"):
            return self.path
        if name == "mode":
            return self.mode
        return Bound(self, name)

    def h_method(self, I, name, args, kwargs):
        if name in ("keys",):
            self.live(I)
            return sorted(self.data)
        if name == "values":
            return [HData(self, k) for k in sorted(self.data)]
        if name == "items":
            return [(k, HData(self, k)) for k in sorted(self.data)]
        if name == "get":
            self.live(I)
            return HData(self, args[0]) if args[0] in self.data else (args[1] if len(args) > 1 else None)
        if name == "create_dataset":
            k = args[0] if args else kwargs["name"]
            v = kwargs["data"] if "data" in kwargs else args[3] if len(args) > 3 else None
            if "dtype" in kwargs and kwargs["dtype"] is not None and isinstance(v, (list, StrArr, tuple)) and not isinstance(v, Arr):
                v = M.np_array(I, list(M.iterate(I, v)), kwargs["dtype"]) if M.dtype_name(kwargs["dtype"]) not in ("f", "d") else v
            elif "dtype" in kwargs and kwargs["dtype"] is not None and isinstance(v, Arr):
                v = M.cast(I, v, kwargs["dtype"])
            self.h_setitem(I, k, v)
            return HData(self, k)
        if name == "close":
            self.closed = True
            return None
        if name == "flush":
            return None
        raise Unsupported("h5py.File.%s" % name, I.loc)

    def h_enter(self, I):
        self.live(I)
        return self

    def h_exit(self, I):
        self.closed = True

    def h_key(self):
        return ("h5file", pkey(self.path))

    def __repr__(self):
        return "<h5 %s>" % pshow(self.path)


def stored(I, v):
    """what reading a dataset gives back after writing v"""
    if v is None:
        raise err("TypeError", "cannot store None", I=I)
    if isinstance(v, StrArr):
        if v.kind == "U":
            raise err("TypeError", "unicode arrays cannot be stored", I=I)
        return StrArr(v.items, "S")
    if isinstance(v, (list, tuple)) and v and all(isinstance(x, (str, bytes)) for x in v):
        return StrArr([x.encode() if isinstance(x, str) else x for x in v], "S")
    if isinstance(v, CVec):
        return v.h_arr(I)
    if isinstance(v, (Arr, int, F, list, tuple, NTInst)):
        a = M.asarr(v, I)
        return Arr(a.shape, a.body, a.dtype, "np")
    raise Unsupported("stored value %r" % (v,), I.loc)


class HData(HObj):
    def __init__(self, f, name):
        self.f, self.dname = f, name

    def value(self, I):
        self.f.live(I)
        v = self.f.data[self.dname]
        return Arr(v.shape, v.body, v.dtype, "np") if isinstance(v, Arr) else v

    def h_getitem(self, I, ix):
        v = self.value(I)
        if ix is Ellipsis or ix == ():
            return v
        return M.getitem(I, v, ix)

    def h_iter(self, I):
        return M.iterate(I, self.value(I))

    def h_len(self, I):
        return M.b_len(I, self.value(I))

    def h_array(self, I, dtype):
        return M.np_array(I, self.value(I), dtype)

    def h_arr(self, I):
        return M.asarr(self.value(I), I)

    def h_getattr(self, I, name):
        if name in ("shape", "size", "ndim", "dtype"):
            return I.getattr(self.value(I), name)
        if name == "name":
            return "/" + self.dname
        if name in ("astype", "asstr"):
            return Bound(self, name)
        raise err("AttributeError", "Dataset.%s" % name, I=I)

    def h_method(self, I, name, args, kwargs):
        v = self.value(I)
        if name == "asstr" and isinstance(v, StrArr):
            return StrArr([x.decode() if isinstance(x, bytes) else x for x in v.items], "O")
        if name == "astype":
            return I.call(I.getattr(v, "astype"), args, kwargs)
        raise Unsupported("Dataset." + name, I.loc)

    def h_key(self):
        return ("h5data", pkey(self.f.path), self.dname)


class HText(HObj):
    """text file with known content"""

    def __init__(self, path, text):
        self.path, self.text, self.closed, self.pos = path, text, False, 0

    def lines(self, I):
        if self.closed:
            raise err("ValueError", "I/O operation on closed file", I=I)
        ls = self.text[self.pos:].splitlines(True)
        self.pos = len(self.text)
        return ls

    def h_iter(self, I):
        return self.lines(I)

    def h_getattr(self, I, name):
        return Bound(self, name)

    def h_method(self, I, name, args, kwargs):
        if name == "readlines":
            return self.lines(I)
        if name == "read":
            return "".join(self.lines(I))
        if name == "close":
            self.closed = True
            return None
        if name == "readline":
            i = self.text.find("\n", self.pos)
            j = len(self.text) if i < 0 else i + 1
            s, self.pos = self.text[self.pos : j], j
            return s
        raise Unsupported("file." + name, I.loc)

    def h_enter(self, I):
        return self

    def h_exit(self, I):
        self.closed = True


class HParser(HObj):
    def __init__(self, w):
        self.w, self.opts = w, []

    def h_getattr(self, I, name):
        return Bound(self, name)

    def h_method(self, I, name, args, kwargs):
        if name == "add_argument":
            self.opts.append((list(args), dict(kwargs)))
            return None
        if name in ("parse_args",):
            return HNs(self.w, self.opts)
        raise Unsupported("ArgumentParser." + name, I.loc)


class HNs(HObj):
    """command-line namespace: every option is present or absent"""

    def __init__(self, w, opts):
        self.w, self.opts = w, {}
        for names, kw in opts:
            dest = kw.get("dest")
            if dest is None:
                long = [n for n in names if n.startswith("--")] or names
                dest = long[0].lstrip("-").replace("-", "_")
            self.opts[dest] = (names, kw)

    def h_getattr(self, I, name):
        if name not in self.opts:
            raise err("AttributeError", name, I=I)
        names, kw = self.opts[name]
        positional = not names[0].startswith("-")
        ident = [n for n in names if n.startswith("--")] or names
        if not positional and not kw.get("required"):
            if not self.w.ask(I, "command-line option is given", ident[0].lstrip("-")):
                return kw.get("default", False if kw.get("action") == "store_true" else None)
        if kw.get("action") == "store_true":
            return True
        t = kw.get("type")
        if t is None:
            return Op("cli", ident[0].lstrip("-"))
        n = getattr(t, "name", None)
        if n == "str":
            return Op("cli", ident[0].lstrip("-"))
        if n in ("float", "int"):
            return Arr((), sym("cli_" + ident[0].lstrip("-")), "f" if n == "float" else "i", "np")
        raise Unsupported("argument type %r" % (t,), I.loc)


class Pop(HObj):
    """fsps.StellarPopulation: outputs are functions of the keyword arguments"""

    def __init__(self, w, kwargs):
        self.w, self.kw = w, kwargs

    def tag(self, extra=()):
        return repr(tuple((k, vkey(v)) for k, v in sorted(self.kw.items()) if not (k == "zmet")) + tuple(extra))

    def zmet(self, I):
        return M.asarr(self.kw.get("zmet", 1), I).body

    def h_getattr(self, I, name):
        w = self.w
        if name == "zlegend":
            return mk([w.n_met], lambda i: fn("fsps_z", i[0]), lib="np")
        if name == "log_age":
            return mk([w.n_age], lambda i: fn("fsps_log_age", i[0]), lib="np")
        if name == "ssp_ages":
            return mk([w.n_age], lambda i: fn("fsps_log_age", i[0]), lib="np")
        if name == "wavelengths":
            return mk([w.n_wave], lambda i: fn("fsps_wave", i[0]), lib="np")
        if name in ("emline_luminosity", "emline_wavelengths"):
            if not w.emlines:
                raise err("AttributeError", name, I=I)
            if name == "emline_wavelengths":
                return CVec(w.emlines)
            z = self.zmet(I)
            return mk([w.n_age, len(w.emlines)], lambda i: fn("fsps_lum", self.tag(), z, *i), lib="np")
        if name == "params":
            return dict(self.kw)
        return Bound(self, name)

    def h_method(self, I, name, args, kwargs):
        w = self.w
        z = self.zmet(I)
        if name == "get_spectrum":
            kw = dict(zip(("zmet", "tage", "peraa"), args), **kwargs)
            if kw.get("zmet") is not None:
                z = M.asarr(kw["zmet"], I).body
            extra = []
            if kw.get("peraa"):
                extra.append("per angstrom")
            if kw.get("tage") not in (None, 0):
                extra.append(("tage", vkey(kw["tage"])))
            wave = mk([w.n_wave], lambda i: fn("fsps_wave", i[0]), lib="np")
            flux = mk([w.n_age, w.n_wave], lambda i: fn("fsps_spec", self.tag(extra), z, *i), lib="np")
            return (wave, flux)
        raise Unsupported("StellarPopulation." + name, I.loc)


class Colors(HObj):
    """colour-map samples"""

    def __init__(self, cmap, x):
        self.cmap, self.x = cmap, x

    def h_getitem(self, I, k):
        return Op("colour", self.cmap, M.getitem(I, self.x, k))

    def h_len(self, I):
        return M.b_len(I, self.x)

    def h_iter(self, I):
        return [Op("colour", self.cmap, v) for v in M.iterate(I, self.x)]


class Plot(HObj):
    """figure, axes and artists: method calls are recorded"""

    def __init__(self, w, kind):
        self.w, self.kind = w, kind

    def h_getattr(self, I, name):
        return Bound(self, name)

    def h_method(self, I, name, args, kwargs):
        self.w.log.append((self.kind + "." + name, args, kwargs, I.loc))
        if name == "subplots":
            return Plot(self.w, "axes")
        if name in ("plot",):
            return [Artist(self.w, args, kwargs)]
        return Plot(self.w, name)


class Artist(HObj):
    def __init__(self, w, args, kwargs):
        self.w, self.args, self.kwargs = w, args, kwargs

    def h_method(self, I, name, args, kwargs):
        short = {"ls": "linestyle", "c": "color"}
        if name.startswith("set_") and args:
            self.kwargs[name[4:]] = args[0]
            return None
        if name == "set":
            self.kwargs.update(kwargs)
            return None
        if name.startswith("get_"):
            return self.kwargs.get(name[4:], self.kwargs.get({v: k for k, v in short.items()}.get(name[4:], "?")))
        raise Unsupported("artist method " + name, I.loc)


class World:
    """one abstract environment (a fresh one per path)"""

    def __init__(self, root, fixed=None, files=None, tables=None, **kw):
        self.root = root
        self.fixed = {k: v for k, v in (fixed or {}).items()}
        self.files = {pkey(p): dict(d) for p, d in (files or [])}
        self.default_file = kw.pop("default_file", None)
        self.tables = tables or {}
        self.opened = []
        self.log = []
        self.n_met, self.n_age, self.n_wave = num(3), T.dim("n_age", 2), T.dim("n_wave", 2)
        self.emlines = None
        self.cli = []
        for k, v in kw.items():
            self.__dict__[k] = v

    def ask(self, I, q, *a):
        key = (q,) + tuple(x if isinstance(x, str) else repr(vkey(x)) for x in a)
        for k in (key, q):
            if k in self.fixed:
                return self.fixed[k]
        r = I.decide(Op("?" + q, *a))
        self.fixed[key] = r
        self.log.append((q, a, r))
        return r

    # -- hooks of the interpreter
    def getattr(self, I, o, name):
        return NotImplemented

    def getitem(self, I, o, ix):
        return NotImplemented

    def array(self, I, x, dtype):
        return NotImplemented

    def call_op(self, I, f, args, kwargs):
        return NotImplemented

    def exists(self, I, kind, p):
        k = pkey(p)
        if k in self.files:
            return kind != "directory"
        if k and k[0] and k[0][0] == ("op", "ROOT"):
            real = os.path.join(self.root, *["".join(c) for c in k[1:]])
            return os.path.isdir(real) if kind == "directory" else os.path.isfile(real)
        return self.ask(I, kind + " exists", Op("path", *npath(p)))

    def call(self, I, name, args, kwargs):
        f = getattr(self, "c_" + name.replace(".", "_"), None)
        if f is None:
            if name in ("numpy.isclose", "jax.numpy.isclose") and any(as_cvec(a) for a in args[:2]):
                return cv_isclose(I, *args, **kwargs)
            if name.startswith("numpy.") and args and isinstance(args[0], (CVec, StrArr)):
                return self.np_small(I, name[6:], args, kwargs)
            return NotImplemented
        return f(I, *args, **kwargs)

    def np_small(self, I, op, args, kwargs):
        v = args[0]
        if op in ("array", "asarray", "atleast_1d", "copy"):
            return v.h_array(I, kwargs.get("dtype", args[1] if len(args) > 1 else None))
        if isinstance(v, CVec):
            r = v.red(I, op)
            if r is not NotImplemented:
                return r
            if op in ("abs", "absolute", "fabs"):
                return CVec([abs(x) for x in v.items])
            if op == "count_nonzero":
                return sum(1 for x in v.items if x)
            if op in ("where", "nonzero") and len(args) == 1:
                return (CVec([j for j, x in enumerate(v.items) if x]),)
            if op == "flatnonzero":
                return CVec([j for j, x in enumerate(v.items) if x])
        if op == "char.decode" and isinstance(v, StrArr):
            return StrArr([x.decode() for x in v.items], "U")
        if isinstance(v, CVec) and all(isinstance(x, F) for x in v.items):
            return M.call_ext(I, "numpy." + op, [v.h_arr(I)] + list(args[1:]), kwargs)
        raise Unsupported("numpy.%s of a constant vector" % op, I.loc)

    def c_os_path_isfile(self, I, p):
        return self.exists(I, "file", p)

    def c_os_path_exists(self, I, p):
        return self.exists(I, "file", p)

    def c_os_path_isdir(self, I, p):
        return self.exists(I, "directory", p)

    def c_os_getenv(self, I, k, default=None):
        return Environ(self).val(I, k, default, False)

    def c_os_environ_get(self, I, k, default=None):
        return Environ(self).val(I, k, default, False)

    def c_glob_glob(self, I, p, **k):
        pat = Op("path", *npath(p))
        if self.ask(I, "no file matches", pat):
            return []
        if self.ask(I, "exactly one file matches", pat):
            return [Op("match", 0, pat)]
        return [Op("match", 0, pat), Op("match", 1, pat)]

    c_glob_iglob = c_glob_glob

    def c_h5py_File(self, I, path, mode="r", **k):
        if path is None:
            raise err("TypeError", "no file name", I=I)
        self.opened.append((path, mode))
        I.event("h5-open", path=path, mode=mode)
        key = pkey(path)
        if mode in ("r", "r+"):
            if key not in self.files:
                m = [x for x in pieces(path) if isinstance(x, Op) and x.name == "match"]
                if not m and not self.exists(I, "file", path):
                    raise err("FileNotFoundError", pshow(path), I=I)
                if self.default_file is None:
                    self.files[key] = {}
                else:
                    self.files[key] = dict(self.default_file)
        elif mode in ("w", "w-", "x"):
            self.files[key] = {}
        elif mode == "a":
            self.files.setdefault(key, {})
        else:
            raise err("ValueError", "mode " + str(mode), I=I)
        return HFile(self, path, mode, self.files[key])

    def c_numpy_loadtxt(self, I, path, *a, **k):
        key = pkey(path)
        base = key[-1][-1] if key and key[-1] else ""
        if isinstance(base, str) and base in self.tables:
            if key[0] and key[0][0] == ("op", "ROOT") and not self.exists(I, "file", path):
                raise err("FileNotFoundError", pshow(path), I=I)
            self.opened.append((path, "r"))
            shape = self.tables[base]
            if k.get("unpack"):
                shape = tuple(reversed(shape))
                return mk(shape, lambda i: fn("table", base, *reversed(i)), lib="np")
            return mk(shape, lambda i: fn("table", base, *i), lib="np")
        if key and key[0] and key[0][0] == ("op", "ROOT") and not self.exists(I, "file", path):
            raise err("FileNotFoundError", pshow(path), I=I)
        raise Unsupported("text table %s" % pshow(path), I.loc)

    c_numpy_genfromtxt = c_numpy_loadtxt

    def c_matplotlib_pyplot_subplots(self, I, *a, **k):
        return (Plot(self, "figure"), Plot(self, "axes"))

    def c_matplotlib_pyplot_figure(self, I, *a, **k):
        return Plot(self, "figure")

    def c_matplotlib_lines_Line2D(self, I, *a, **k):
        return Artist(self, list(a), dict(k))

    def c_matplotlib_cm_coolwarm(self, I, x, *a, **k):
        if isinstance(x, Arr) and x.ndim == 0 or isinstance(x, (int, F)):
            return Op("colour", "coolwarm", x)
        return Colors("coolwarm", x)

    def c_argparse_ArgumentParser(self, I, *a, **k):
        return HParser(self)

    def c_fsps_StellarPopulation(self, I, *a, **kw):
        if a:
            raise Unsupported("positional argument of StellarPopulation", I.loc)
        if "**" in kw:
            raise Unsupported("opaque keywords", I.loc)
        self.log.append(("fsps.StellarPopulation", dict(kw)))
        return Pop(self, kw)

    def open(self, I, path, mode="r", **k):
        key = pkey(path)
        if key in self.files and isinstance(self.files[key], dict) and "text" in self.files[key]:
            return HText(path, self.files[key]["text"])
        if key and key[0] and key[0][0] == ("op", "ROOT") and "r" in mode:
            real = os.path.join(self.root, *["".join(c) for c in key[1:]])
            if os.path.isfile(real):
                return HText(path, open(real, encoding="utf-8").read())
        raise Unsupported("open of %s" % pshow(path), I.loc)


def explore(S, world, thunk, limit=200):
    """every path of thunk(world): list of (world, answers, outcome, value)"""
    I = S.I
    out = []
    ws = []

    def go():
        w = world()
        ws.append(w)
        old, I.host = I.host, w
        try:
            return thunk(w)
        finally:
            I.host = old

    res = I.run_paths(go, limit=limit)
    for w, r in zip(ws, res):
        ans = {}
        conds = []
        for c, v in r["path"]:
            if isinstance(c, Op) and c.name.startswith("?"):
                ans[(c.name[1:],) + tuple(x if isinstance(x, str) else vkey(x) for x in c.args)] = v
            conds.append((c, v))
        out.append((w, ans, conds, r))
    I.events.extend(e for r in res for e in r["events"])
    return out
