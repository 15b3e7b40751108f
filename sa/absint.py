"""Abstract interpreter: lowers the Python source of the repository to terms.

Function bodies are walked once over abstract values (no concrete inputs exist);
callees are resolved through imports, aliases, decorators, vmap/partial/jit
wrappers and inlined, so that a caller's value is a term over its own inputs.
"""
import ast
import os
from fractions import Fraction as F

from . import terms as T
from .terms import *
from .values import *


class Unsupported(Exception):
    def __init__(self, why, loc=None):
        super().__init__(why)
        self.why, self.loc = why, loc


class PyRaise(Exception):
    def __init__(self, exc, args=(), loc=None):
        super().__init__(exc)
        self.exc, self.eargs, self.loc = exc, args, loc


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


EXC_PARENT = {
    "KeyError": "LookupError",
    "IndexError": "LookupError",
    "LookupError": "Exception",
    "ValueError": "Exception",
    "UnicodeDecodeError": "ValueError",
    "TypeError": "Exception",
    "AttributeError": "Exception",
    "AssertionError": "Exception",
    "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError",
    "OSError": "Exception",
    "IOError": "OSError",
    "FileNotFoundError": "OSError",
    "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError",
    "StopIteration": "Exception",
    "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception",
    "NameError": "Exception",
    "Exception": "BaseException",
    "BaseException": None,
}


def exc_match(exc, handler):
    while exc is not None:
        if exc == handler:
            return True
        exc = EXC_PARENT.get(exc, None if exc == "BaseException" else "Exception" if exc not in EXC_PARENT else None)
    return False


class Env:
    __slots__ = ("vars", "parent", "globals_", "func")

    def __init__(self, parent=None, glob=None, func=None):
        self.vars = {}
        self.parent = parent
        self.globals_ = glob
        self.func = func


class Oracle:
    """replays a prefix of branch decisions, then takes True and records"""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []

    def decide(self, cond):
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else True
        self.taken.append(v)
        return v


MAX_UNROLL = 4000
MAX_DEPTH = 120


class Interp:
    def __init__(self, root="/repo", extra=()):
        self.root = root
        self.extra = list(extra)  # (package, dir) pairs of additional source
        self.modules = {}
        self.events = []  # dicts
        self.oracle = None
        self.path = []  # [(cond description/Term, bool)]
        self.stack = []  # (func qual, call loc)
        self.calls = {}  # (caller, callee) -> loc
        self.functions = {}  # qual -> loc   (analysed)
        self.origin = {}
        self.atom_origin = {}
        self.loc = None
        self.n_expr = 0
        self.host = None  # host world hooks
        self.loading = []
        self.summaries = {}  # qualified name -> (code name, definition) of summarised callees
        self.summ_uses = set()
        self.import_fail = {}  # external top-level modules that fail to import, and with what
        from . import models

        self.models = models

    # ------------------------------------------------------------ events

    def event(self, kind, **kw):
        kw["kind"] = kind
        kw.setdefault("loc", self.loc)
        kw["func"] = self.stack[-1][0] if self.stack else "<module>"
        kw["stack"] = [s[0] for s in self.stack]
        self.events.append(kw)
        return kw

    # ------------------------------------------------------------ modules

    def find(self, dotted):
        for pkg, d in self.extra:
            if dotted == pkg or dotted.startswith(pkg + "."):
                rel = dotted[len(pkg) :].lstrip(".").replace(".", "/")
                return self._find_in(d, rel)
        return self._find_in(self.root, dotted.replace(".", "/"))

    def _find_in(self, d, rel):
        p = os.path.join(d, rel) if rel else d
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return None

    def is_repo(self, dotted):
        top = dotted.split(".")[0]
        return top == "dsps" or any(top == p for p, _ in self.extra)

    def load(self, dotted):
        m = self.modules.get(dotted)
        if m is not None:
            return m
        path = self.find(dotted)
        if path is None:
            return None
        if "." in dotted:
            self.load(dotted.rsplit(".", 1)[0])
            m = self.modules.get(dotted)
            if m is not None:
                return m
        m = Module(dotted, path)
        self.modules[dotted] = m
        m.src = open(path, encoding="utf-8").read()
        m.tree = ast.parse(m.src, path)
        m.is_pkg = path.endswith("__init__.py")
        m.order = len(self.modules)
        m.env["__name__"] = dotted
        rp = os.path.relpath(path, self.root)
        m.env["__file__"] = Op("join", Op("ROOT"), *rp.split(os.sep))
        save = (self.stack, self.loc, self.path, self.oracle)
        self.stack = self.stack + [("<module %s>" % dotted, self.loc)]
        self.oracle = None
        self.event("module-start", module=dotted)
        try:
            env = Env(None, m)
            env.vars = m.env
            self.exec_block(m.tree.body, env, m)
        finally:
            self.event("module-end", module=dotted)
            self.stack, self.loc, self.path, self.oracle = save
        if "." in dotted:
            par, leaf = dotted.rsplit(".", 1)
            if par in self.modules:
                self.modules[par].env[leaf] = m
        return m

    def rel(self, mod, level, name):
        parts = mod.name.split(".")
        if not mod.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: -(level - 1)]
        return ".".join(parts + ([name] if name else []))

    def ext(self, dotted):
        return Ext(dotted)

    # ------------------------------------------------------------ statements

    def exec_block(self, body, env, mod):
        for st in body:
            self.exec(st, env, mod)

    def where(self, node, mod):
        return (mod.path, getattr(node, "lineno", 0))

    def exec(self, st, env, mod):
        self.loc = (mod.path, getattr(st, "lineno", 0))
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(st).__name__, self.loc)
        m(st, env, mod)

    def s_Expr(self, st, env, mod):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env, mod)

    def s_Pass(self, st, env, mod):
        pass

    def s_Import(self, st, env, mod):
        for a in st.names:
            self.import_mod(a.name, a.asname, env)

    def import_mod(self, name, asname, env):
        if self.is_repo(name):
            m = self.load(name)
            if m is None:
                raise PyRaise("ModuleNotFoundError", (name,), self.loc)
            env.vars[asname or name.split(".")[0]] = m if asname else self.modules[name.split(".")[0]]
            return
        self.import_check(name)
        env.vars[asname or name.split(".")[0]] = Ext(name if asname else name.split(".")[0])

    def import_check(self, name):
        top = name.split(".")[0]
        if top in self.import_fail:
            raise PyRaise(self.import_fail[top], (name,), self.loc)

    def s_ImportFrom(self, st, env, mod):
        if st.module == "__future__":
            return
        if st.level:
            name = self.rel(mod, st.level, st.module)
        else:
            name = st.module
        if not self.is_repo(name):
            self.import_check(name)
            for a in st.names:
                if a.name == "*":
                    raise Unsupported("star import of " + name, self.loc)
                env.vars[a.asname or a.name] = Ext(name + "." + a.name)
            return
        m = self.load(name)
        if m is None:
            raise PyRaise("ModuleNotFoundError", (name,), self.loc)
        for a in st.names:
            if a.name == "*":
                names = m.env.get("__all__")
                if names is None:
                    names = [k for k in m.env if not k.startswith("_")]
                for k in names:
                    if k in m.env:
                        env.vars[k] = m.env[k]
                    else:
                        sub = self.load(name + "." + k)
                        if sub is None:
                            raise PyRaise("AttributeError", (k,), self.loc)
                        env.vars[k] = sub
                continue
            if a.name in m.env:
                env.vars[a.asname or a.name] = m.env[a.name]
                continue
            sub = self.load(name + "." + a.name)
            if sub is None:
                raise PyRaise("ImportError", ("%s from %s" % (a.name, name),), self.loc)
            env.vars[a.asname or a.name] = sub

    def s_FunctionDef(self, st, env, mod):
        f = self.make_func(st, env, mod)
        for d in reversed(st.decorator_list):
            dv = self.eval(d, env, mod)
            f = self.call(dv, [f], {}, d, mod)
        env.vars[st.name] = f

    def make_func(self, st, env, mod, name=None):
        a = st.args
        defaults = [self.eval(d, env, mod) for d in a.defaults]
        kwd = [None if d is None else self.eval(d, env, mod) for d in a.kw_defaults]
        name = name or getattr(st, "name", "<lambda>")
        qual = mod.name + "." + name if env.func is None else env.func.qual + "." + name
        closure = env if env.vars is not mod.env else None
        f = Func(st, mod, closure, name, defaults, kwd, qual)
        f.kwmissing = [d is None for d in a.kw_defaults]
        return f

    def s_ClassDef(self, st, env, mod):
        bases = [self.eval(b, env, mod) for b in st.bases]
        isnt = any(isinstance(b, Ext) and b.name in ("typing.NamedTuple",) for b in bases)
        if isnt:
            fields, defaults = [], {}
            for s in st.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    fields.append(s.target.id)
                    if s.value is not None:
                        defaults[s.target.id] = self.eval(s.value, env, mod)
            env.vars[st.name] = NTClass(st.name, fields, defaults, st, mod)
            return
        ntb = [b for b in bases if isinstance(b, NTClass)]
        if ntb:
            b = ntb[0]
            env.vars[st.name] = NTClass(st.name, list(b.fields), dict(b.defaults), st, mod)
            return
        env.vars[st.name] = Op("class:" + mod.name + "." + st.name)

    def s_Return(self, st, env, mod):
        v = None if st.value is None else self.eval(st.value, env, mod)
        raise _Return(v)

    def s_Assign(self, st, env, mod):
        v = self.eval(st.value, env, mod)
        if type(v) is Arr:
            v = box_arr(v)
        for t in st.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, st, env, mod):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env, mod), env, mod)

    def s_AugAssign(self, st, env, mod):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env, mod)
            v = self.eval(st.value, env, mod)
            r = self.binop(type(st.op).__name__, cur, v)
            if isinstance(cur, list) and isinstance(st.op, ast.Add):
                cur.extend(self.iterate(v))
                self.note_mutation(cur, "+=", st)
                return
            if isinstance(cur, Arr) and isinstance(r, Arr) and cur.lib == "np" and cur.shape != () and len(r.shape) == len(cur.shape):
                # numpy: the object itself is written, every alias sees it
                if cur.dtype == "i" and r.dtype == "f":
                    raise PyRaise("TypeError", ("in-place float result into an integer array",), self.loc)
                cur.body = r.body
                self.write_through(cur, "augmented assignment")
                r = cur
            self.assign(t, r, env, mod)
            return
        if isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env, mod)
            ix = self.eval_index(t.slice, env, mod)
            cur = self.getitem(obj, ix)
            v = self.eval(st.value, env, mod)
            self.setitem(obj, ix, self.binop(type(st.op).__name__, cur, v), t, env, mod)
            return
        if isinstance(t, ast.Attribute):
            obj = self.eval(t.value, env, mod)
            self.event("setattr", obj=repr(obj), attr=t.attr)
            return
        raise Unsupported("augmented assignment target", self.loc)

    def write_through(self, a, how):
        """an in-place write to a numpy array, and to the array it is a view of"""
        if a.src:
            self.event("inplace", target=a.src, how=how, lib=a.lib)
        tag = self.alias_of(a)
        if tag:
            self.event("mutate", target=tag, how=how)
        if a.meta is not None:
            parent, ix = a.meta
            parent.body = self.models.set_index(self, parent, ix, a, "set").body
            if not a.src:
                self.write_through(parent, how)

    def note_mutation(self, obj, how, node):
        o = getattr(self, "owned", None)
        tag = self.alias_of(obj)
        if tag:
            self.event("mutate", target=tag, how=how)

    def alias_of(self, obj):
        tags = getattr(self, "tags", None)
        if tags:
            return tags.get(id(obj))
        return None

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            if env.func is not None and t.id in getattr(env.func, "globals_decl", ()):
                self.event("global-write", name=t.id)
                env.func.mod.env[t.id] = v
                return
            nl = getattr(env.func, "nonlocal_decl", ()) if env.func is not None else ()
            if t.id in nl:
                e = env.parent
                while e is not None:
                    if t.id in e.vars:
                        e.vars[t.id] = v
                        return
                    e = e.parent
            env.vars[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            n = len(t.elts)
            items = self.unpack(v, n if not star else None)
            if star:
                i = star[0]
                after = n - i - 1
                if len(items) < n - 1:
                    raise PyRaise("ValueError", ("unpack",), self.loc)
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, env, mod)
                self.assign(t.elts[i].value, list(items[i : len(items) - after]), env, mod)
                for x, y in zip(t.elts[i + 1 :], items[len(items) - after :]):
                    self.assign(x, y, env, mod)
                return
            if len(items) != n:
                raise PyRaise("ValueError", ("unpack",), self.loc)
            for x, y in zip(t.elts, items):
                self.assign(x, y, env, mod)
            return
        if isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env, mod)
            ix = self.eval_index(t.slice, env, mod)
            self.setitem(obj, ix, v, t, env, mod)
            return
        if isinstance(t, ast.Attribute):
            obj = self.eval(t.value, env, mod)
            if isinstance(obj, (Func, VMap, JitWrap, Partial)):
                obj.attrs[t.attr] = v
                self.event("setattr", obj=repr(obj), attr=t.attr)
                return
            if isinstance(obj, HObj):
                self.models.hook(self, obj, "h_setattr", t.attr, v)
                return
            if isinstance(obj, Module):
                obj.env[t.attr] = v
            self.event("setattr", obj=repr(obj), attr=t.attr)
            return
        if isinstance(t, ast.Starred):
            self.assign(t.value, v, env, mod)
            return
        raise Unsupported("assignment target", self.loc)

    def setitem(self, obj, ix, v, t, env, mod):
        if isinstance(obj, HObj):
            self.models.hook(self, obj, "h_setitem", ix, v)
            return
        if isinstance(obj, dict):
            self.note_mutation(obj, "item assignment", t)
            if isinstance(ix, (int, str, F, tuple, bool, type(None), bytes)):
                obj[ix] = v
            else:
                obj[DKey(ix)] = v
            return
        if isinstance(obj, list):
            self.note_mutation(obj, "item assignment", t)
            if isinstance(ix, Arr) and ix.shape == () and ix.body.const() is not None:
                ix = int(ix.body.const())
            if isinstance(ix, int):
                obj[ix] = v
                return
            raise Unsupported("list assignment with symbolic index", self.loc)
        if isinstance(obj, Arr):
            if obj.lib == "jnp":
                raise PyRaise("TypeError", ("JAX arrays are immutable",), self.loc)
            new = self.models.set_index(self, obj, ix, v, "set")
            obj.body = new.body
            self.write_through(obj, "item assignment")
            return
        if isinstance(obj, Op):
            self.event("op-setitem", obj=obj, key=ix, val=v)
            if obj.name == "os.environ":
                self.event("environ-write")
            return
        raise Unsupported("item assignment on %r" % (obj,), self.loc)

    def s_If(self, st, env, mod):
        c = self.eval(st.test, env, mod)
        if self.truth(c, st.test, mod):
            self.exec_block(st.body, env, mod)
        else:
            self.exec_block(st.orelse, env, mod)

    def s_Assert(self, st, env, mod):
        c = self.eval(st.test, env, mod)
        if not self.truth(c, st.test, mod):
            raise PyRaise("AssertionError", (), self.loc)

    def s_Raise(self, st, env, mod):
        if st.exc is None:
            e = getattr(self, "cur_exc", None)
            if e is not None:
                raise e
            raise PyRaise("RuntimeError", (), self.loc)
        v = self.eval(st.exc, env, mod)
        name, args = "Exception", ()
        if isinstance(v, Op) and v.name.startswith("exc:"):
            name, args = v.name[4:], v.args
        elif isinstance(v, Ext):
            name = v.name.split(".")[-1]
        raise PyRaise(name, args, (mod.path, st.lineno))

    def s_Try(self, st, env, mod):
        try:
            try:
                self.exec_block(st.body, env, mod)
            except PyRaise as e:
                for h in st.handlers:
                    names = []
                    if h.type is None:
                        names = ["BaseException"]
                    else:
                        todo = [self.eval(h.type, env, mod)]
                        while todo:
                            xv = todo.pop()
                            if isinstance(xv, (tuple, list)):
                                todo.extend(xv)
                            elif isinstance(xv, Ext) or type(xv).__name__ == "Builtin" and xv.name in EXC_PARENT:
                                names.append(xv.name.split(".")[-1])
                            else:
                                raise Unsupported("except clause of an unknown class", (mod.path, h.lineno))
                    if any(exc_match(e.exc, n) for n in names):
                        if h.name:
                            env.vars[h.name] = Op("exc:" + e.exc, *e.eargs)
                        self.event("except", exc=e.exc, names=names, at=(mod.path, h.lineno))
                        old = getattr(self, "cur_exc", None)
                        self.cur_exc = e
                        try:
                            self.exec_block(h.body, env, mod)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env, mod)
        finally:
            if st.finalbody:
                self.exec_block(st.finalbody, env, mod)

    def s_With(self, st, env, mod):
        opened = []
        for it in st.items:
            v = self.eval(it.context_expr, env, mod)
            opened.append(v)
            self.event("with-enter", val=v)
            if isinstance(v, HObj):
                v = self.models.hook(self, v, "h_enter")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, mod)
        try:
            self.exec_block(st.body, env, mod)
        finally:
            for v in reversed(opened):
                self.event("with-exit", val=v)
                if isinstance(v, HObj):
                    self.models.hook(self, v, "h_exit")

    def s_For(self, st, env, mod):
        it = self.eval(st.iter, env, mod)
        if isinstance(it, (SeqVal, Op)) or (isinstance(it, Arr) and (it.ndim == 0 or it.shape[0].const() is None)):
            r = self.models.symbolic_for(self, st, it, env, mod)
            if r:
                return
        items = self.iterate(it)
        for x in items:
            self.assign(st.target, x, env, mod)
            try:
                self.exec_block(st.body, env, mod)
            except _Break:
                break
            except _Continue:
                continue
        else:
            self.exec_block(st.orelse, env, mod)

    def s_While(self, st, env, mod):
        for n in range(MAX_UNROLL):
            c = self.eval(st.test, env, mod)
            tv = self.concrete_truth(c)
            if tv is None:
                if self.models.symbolic_while(self, st, env, mod):
                    return
                raise Unsupported("while loop with symbolic condition", self.loc)
            if not tv:
                self.exec_block(st.orelse, env, mod)
                return
            try:
                self.exec_block(st.body, env, mod)
            except _Break:
                return
            except _Continue:
                continue
        raise Unsupported("while loop bound", self.loc)

    def s_Break(self, st, env, mod):
        raise _Break()

    def s_Continue(self, st, env, mod):
        raise _Continue()

    def s_Global(self, st, env, mod):
        if env.func is not None:
            env.func.globals_decl = set(getattr(env.func, "globals_decl", ())) | set(st.names)

    def s_Nonlocal(self, st, env, mod):
        if env.func is not None:
            env.func.nonlocal_decl = set(getattr(env.func, "nonlocal_decl", ())) | set(st.names)

    def s_Delete(self, st, env, mod):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.eval(t.value, env, mod)
                ix = self.eval_index(t.slice, env, mod)
                self.note_mutation(obj, "del", t)
                if isinstance(obj, (dict, list)):
                    del obj[ix]

    # ------------------------------------------------------------ truth

    def concrete_truth(self, c):
        if isinstance(c, bool) or c is None:
            return bool(c)
        if isinstance(c, (int, F, str, bytes, list, tuple, dict, set)):
            return bool(c)
        if isinstance(c, Arr):
            if c.shape == ():
                v = c.body.const()
                if v is not None:
                    return bool(v)
                if c.dtype != "b":
                    s = sign(c.body)
                    if not s & ZERO:
                        return True
            return None
        if isinstance(c, (Func, VMap, JitWrap, Partial, NTClass, Module, Ext, Bound)):
            return True
        if isinstance(c, NTInst):
            return bool(c.vals)
        if isinstance(c, HObj):
            return c.h_truth()
        if isinstance(c, Op) and c.name in ("env", "path", "match", "join", "cli", "ROOT"):
            return True
        return None

    def truth(self, c, node=None, mod=None):
        if isinstance(c, Arr) and c.body.deps:
            self.event("truth", value=c)
        v = self.concrete_truth(c)
        if v is not None:
            return v
        if isinstance(c, Arr):
            key = c.body if c.dtype == "b" else ONE_T - eqz(c.body)
        elif isinstance(c, SeqVal):
            key = ONE_T - eqz(c.size)
        else:
            key = c
        return self.decide(key)

    def decide(self, key):
        kk = ("t", key.key) if isinstance(key, Term) else vkey(key)
        for k2, v in self.path:
            k3 = ("t", k2.key) if isinstance(k2, Term) else vkey(k2)
            if k3 == kk:
                return v
            if isinstance(k2, Term) and isinstance(key, Term) and (key + k2) is ONE_T:
                return not v
        if isinstance(key, Op) and key.name == "not":
            return not self.decide(key.args[0])
        self.event("branch", cond=key)
        if self.oracle is None:
            raise Unsupported("branch on symbolic value %r" % (key,), self.loc)
        v = self.oracle.decide(key)
        self.path.append((key, v))
        return v

    # ------------------------------------------------------------ expressions

    def eval(self, e, env, mod):
        self.n_expr += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__, (mod.path, e.lineno))
        v = m(e, env, mod)
        if isinstance(v, Arr):
            self.note_origin(v.body, mod, e)
        return v

    def note_origin(self, t, mod, e):
        if t.key not in self.origin:
            self.origin[t.key] = (mod.path, e.lineno)
            for m, c in t.monos:
                for a, x in m:
                    if a.key not in self.atom_origin:
                        self.atom_origin[a.key] = (mod.path, e.lineno)

    def e_Constant(self, e, env, mod):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return scalar(fn("nan" if v != v else "inf"))
            return F(repr(v))
        if v is Ellipsis:
            return Ellipsis
        return v

    def lookup(self, name, env, mod):
        x = env
        while x is not None:
            if name in x.vars:
                return x.vars[name]
            x = x.parent
        if name in mod.env:
            return mod.env[name]
        b = self.models.builtin(name)
        if b is not None:
            return b
        raise PyRaise("NameError", (name,), self.loc)

    def e_Name(self, e, env, mod):
        return self.lookup(e.id, env, mod)

    def e_Tuple(self, e, env, mod):
        return tuple(self.elts(e.elts, env, mod))

    def e_List(self, e, env, mod):
        return self.elts(e.elts, env, mod)

    def e_Set(self, e, env, mod):
        return self.models.mkset(self.elts(e.elts, env, mod))

    def elts(self, xs, env, mod):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env, mod)))
            else:
                out.append(self.eval(x, env, mod))
        return out

    def e_Dict(self, e, env, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env, mod))
            else:
                d[self.dkey(self.eval(k, env, mod))] = self.eval(v, env, mod)
        return d

    def dkey(self, k):
        if isinstance(k, (int, str, F, tuple, bool, type(None), bytes)):
            return k
        return DKey(k)

    def e_UnaryOp(self, e, env, mod):
        v = self.eval(e.operand, env, mod)
        return self.unop(type(e.op).__name__, v)

    def unop(self, op, v):
        if op == "Not":
            t = self.concrete_truth(v)
            if t is not None:
                return not t
            if isinstance(v, Arr) and v.dtype == "b":
                return Arr(v.shape, bnot(v.body), "b", v.lib)
            if isinstance(v, Op) and v.name == "not":
                return v.args[0]
            return Op("not", v)
        if isinstance(v, (bool, int, F)):
            if op == "USub":
                return -v
            if op == "UAdd":
                return +v
            if op == "Invert":
                return ~v
        if isinstance(v, Arr):
            if op == "USub":
                return Arr(v.shape, -v.body, v.dtype, v.lib)
            if op == "UAdd":
                return v
            if op == "Invert" and v.dtype == "b":
                return Arr(v.shape, bnot(v.body), "b", v.lib)
        if isinstance(v, Op):
            if op == "USub":
                return self.unop(op, self.models.tonum(v))
            return Op(op, v)
        raise Unsupported("unary %s on %r" % (op, v), self.loc)

    def e_BinOp(self, e, env, mod):
        a = self.eval(e.left, env, mod)
        b = self.eval(e.right, env, mod)
        self.loc = (mod.path, e.lineno)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.models.binop(self, op, a, b)

    def e_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, env, mod)
            if x is e.values[-1]:
                return v
            t = self.truth(v, x, mod)
            if isand and not t:
                return v if self.concrete_truth(v) is not None else False
            if not isand and t:
                return v if self.concrete_truth(v) is not None else (True if not isinstance(v, Op) else v)
        return v

    def e_Compare(self, e, env, mod):
        left = self.eval(e.left, env, mod)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env, mod)
            c = self.models.compare(self, type(op).__name__, left, right)
            if res is None:
                res = c
            else:
                t1 = self.concrete_truth(res)
                if t1 is False:
                    return res
                if t1 is True:
                    res = c
                else:
                    t2 = self.concrete_truth(c)
                    if t2 is False:
                        res = c
                    elif t2 is None:
                        if isinstance(res, Arr) and isinstance(c, Arr):
                            res = scalar(band(res.body, c.body), "b")
                        else:
                            res = Op("and", res, c)
            left = right
        return res

    def e_IfExp(self, e, env, mod):
        c = self.eval(e.test, env, mod)
        if self.truth(c, e.test, mod):
            return self.eval(e.body, env, mod)
        return self.eval(e.orelse, env, mod)

    def e_NamedExpr(self, e, env, mod):
        v = self.eval(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    def e_Lambda(self, e, env, mod):
        return self.make_func(e, env, mod, "<lambda>")

    def e_Attribute(self, e, env, mod):
        o = self.eval(e.value, env, mod)
        self.loc = (mod.path, e.lineno)
        return self.getattr(o, e.attr)

    def getattr(self, o, name):
        if isinstance(o, Module):
            if name in o.env:
                return o.env[name]
            m = self.load(o.name + "." + name)
            if m is not None:
                return m
            raise PyRaise("AttributeError", ("%s.%s" % (o.name, name),), self.loc)
        if isinstance(o, Ext):
            return self.models.ext_attr(self, o, name)
        return self.models.getattr(self, o, name)

    def eval_index(self, s, env, mod):
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env, mod)
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env, mod) for x in s.elts)
        return self.eval(s, env, mod)

    def e_Subscript(self, e, env, mod):
        o = self.eval(e.value, env, mod)
        ix = self.eval_index(e.slice, env, mod)
        self.loc = (mod.path, e.lineno)
        return self.getitem(o, ix)

    def getitem(self, o, ix):
        return self.models.getitem(self, o, ix)

    def e_JoinedStr(self, e, env, mod):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env, mod)
                if isinstance(x, (str, int)) and v.format_spec is None:
                    parts.append(str(x))
                else:
                    parts.append(x)
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return Op("fstr", *parts)

    def e_FormattedValue(self, e, env, mod):
        return self.eval(e.value, env, mod)

    def e_Starred(self, e, env, mod):
        raise Unsupported("starred expression", self.loc)

    def comp(self, gens, env, mod, leaf):
        """run comprehension generators; leaf(env) per element"""

        def go(i, env):
            if i == len(gens):
                leaf(env)
                return
            g = gens[i]
            it = self.eval(g.iter, env, mod)
            for x in self.iterate(it):
                e2 = Env(env, env.globals_, env.func)
                self.assign(g.target, x, e2, mod)
                if all(self.truth(self.eval(c, e2, mod)) for c in g.ifs):
                    go(i + 1, e2)

        go(0, Env(env, env.globals_, env.func))

    def e_ListComp(self, e, env, mod):
        r = self.models.symbolic_comp(self, e, env, mod)
        if r is not None:
            return r
        out = []
        self.comp(e.generators, env, mod, lambda en: out.append(self.eval(e.elt, en, mod)))
        return out

    def e_GeneratorExp(self, e, env, mod):
        return self.e_ListComp(e, env, mod)

    def e_SetComp(self, e, env, mod):
        return self.models.mkset(self.e_ListComp(e, env, mod))

    def e_DictComp(self, e, env, mod):
        d = {}

        def leaf(en):
            d[self.dkey(self.eval(e.key, en, mod))] = self.eval(e.value, en, mod)

        self.comp(e.generators, env, mod, leaf)
        return d

    def e_Call(self, e, env, mod):
        f = self.eval(e.func, env, mod)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env, mod)))
            else:
                args.append(self.eval(a, env, mod))
        for k in e.keywords:
            v = self.eval(k.value, env, mod)
            if k.arg is None:
                if isinstance(v, dict):
                    kwargs.update(v)
                elif isinstance(v, Op):
                    kwargs["**"] = v
                else:
                    raise Unsupported("** of %r" % (v,), self.loc)
            else:
                kwargs[k.arg] = v
        self.loc = (mod.path, e.lineno)
        return self.call(f, args, kwargs, e, mod)

    # ------------------------------------------------------------ iteration

    def iterate(self, v):
        return self.models.iterate(self, v)

    def unpack(self, v, n):
        if isinstance(v, HObj):
            return list(self.iterate(v))
        if isinstance(v, Arr) and v.ndim and v.shape[0].const() is None and n is not None:
            raise Unsupported("unpack of symbolic-length array", self.loc)
        if isinstance(v, Op) and n is not None:
            return [Op("item", v, i) for i in range(n)]
        return list(self.iterate(v))

    # ------------------------------------------------------------ calls

    def call(self, f, args, kwargs, node=None, mod=None):
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, node, mod)
        return self.models.call(self, f, args, kwargs)

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise("TypeError", ("too many arguments to " + f.name,), self.loc)
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names) :])
        kwnames = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwnames:
                if k in vals:
                    raise PyRaise("TypeError", ("duplicate argument " + k,), self.loc)
                vals[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        elif extra:
            raise PyRaise("TypeError", ("unexpected keyword %s to %s" % (list(extra), f.name),), self.loc)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise("TypeError", ("missing argument %s of %s" % (n, f.name),), self.loc)
                vals[n] = f.defaults[j]
        for i, n in enumerate(kwnames):
            if n not in vals:
                if f.kwmissing[i]:
                    raise PyRaise("TypeError", ("missing argument %s of %s" % (n, f.name),), self.loc)
                vals[n] = f.kwdefaults[i]
        return vals

    def call_func(self, f, args, kwargs, node=None, mod=None):
        if len(self.stack) > MAX_DEPTH:
            raise Unsupported("call depth", self.loc)
        caller = self.stack[-1][0] if self.stack else "<entry>"
        loc = self.loc
        self.calls.setdefault((caller, f.qual), loc)
        self.functions.setdefault(f.qual, (f.mod.path, f.node.lineno))
        vals = self.bind(f, args, kwargs)
        for k, v in vals.items():
            if type(v) is Arr:
                vals[k] = box_arr(v)
        if f.attrs.get("memoized"):
            self.event("memo-call", fn=f)
            if any(isinstance(v, (list, dict)) or isinstance(v, Arr) and v.ndim for v in vals.values()):
                raise PyRaise("TypeError", ("unhashable argument of the memoised function " + f.name,), self.loc)
        if f.attrs.get("custom-derivative"):
            self.event("custom-derivative", fn=f, args=list(vals.values()))
        if f.jitted:
            vals = self.trace_args(f, vals)
        env = Env(f.env, f.mod, f)
        env.vars = vals
        args0 = dict(vals)
        self.stack.append((f.qual, loc))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env, f.mod)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                raise Unsupported("generator function " + f.qual, loc)
            r = None
            try:
                self.exec_block(f.node.body, env, f.mod)
            except _Return as e:
                r = e.v
            if self.summaries and len(self.stack) > 1 and f.qual in self.summaries:
                from . import summ

                a = f.node.args
                if a.vararg is None and a.kwarg is None:
                    r = summ.apply(self, f, [args0[x.arg] for x in a.posonlyargs + a.args + a.kwonlyargs], r)
            return r
        finally:
            self.stack.pop()
            self.loc = loc

    def trace_args(self, f, vals):
        o = getattr(f, "jit_opts", None) or {}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        static = set()
        for k in ("static_argnames", "static_argnums", "donate_argnums", "donate_argnames"):
            v = o.get(k)
            if v is None:
                continue
            for x in list(v) if isinstance(v, (list, tuple)) else [v]:
                n = x if isinstance(x, str) else names[x] if isinstance(x, int) and -len(names) <= x < len(names) else None
                if n not in vals:
                    continue
                if k.startswith("donate"):
                    self.event("donate", value=vals[n], param=n)
                else:
                    static.add(n)
        for n in static:
            if isinstance(vals[n], Arr):
                self.event("static-arg", value=vals[n], param=n)
                if vals[n].ndim:
                    raise PyRaise("ValueError", ("non-hashable static argument " + n,), self.loc)
        return {k: v if k in static else tracer(v) for k, v in vals.items()}

    # ------------------------------------------------------------ paths

    def run_paths(self, thunk, limit=256):
        """enumerate the branch decisions of a thunk.
        -> list of dict(path, result | raised, events)"""
        out = []
        todo = [[]]
        while todo:
            prefix = todo.pop()
            if len(out) >= limit:
                raise Unsupported("path limit")
            orc = Oracle(prefix)
            save = (self.oracle, self.path, self.events, self.stack, self.loc)
            self.oracle, self.path, self.events, self.stack = orc, [], [], []
            r = {}
            try:
                try:
                    r["result"] = thunk()
                except PyRaise as e:
                    r["raised"] = e
                r["path"] = self.path
                r["events"] = self.events
            finally:
                self.oracle, self.path, self.events, self.stack, self.loc = save
            out.append(r)
            for i in range(len(prefix), len(orc.taken)):
                todo.append(orc.taken[:i] + [False])
        return out


def tracer(v):
    """what a traced function sees of an argument: a JAX value, not the caller's memory"""
    if isinstance(v, Arr):
        if v.lib == "jnp" and v.src is None:
            return v
        return Arr(v.shape, v.body, v.dtype, "jnp", None)
    if isinstance(v, NTInst):
        return NTInst(v.cls, [tracer(x) for x in v.vals])
    if type(v) in (tuple, list):
        return type(v)(tracer(x) for x in v)
    if type(v) is dict:
        return {k: tracer(x) for k, x in v.items()}
    return v


def box_arr(v):
    if v.dtype != "f" or len(v.body.monos) < 2:
        return v
    b = T.box(v.body)
    if b is v.body:
        return v
    if v.lib == "np":
        v.body = b  # the same object: aliases keep seeing one array
        return v
    return Arr(v.shape, b, v.dtype, v.lib, v.src)


class DKey:
    """dictionary key for abstract values"""

    def __init__(self, v):
        self.v = v
        self.k = vkey(v)

    def __eq__(self, o):
        return isinstance(o, DKey) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return repr(self.v)
