"""DEVELOPMENT ONLY (never imported by a check): numeric evaluation of terms, used to
validate the engine's library models against real runs of the code."""
import math
import numpy as np
from math import erf
import sys
sys.path.insert(0, '/verif')
from sa import terms as T
from sa.terms import *
from sa.values import *

class Ev:
    def __init__(self, syms, dims):
        self.syms, self.dims = syms, dims
        self.cache = {}

    def t(self, t, env):
        key = (id(t), tuple(sorted(((a.key, v) for a, v in env.items() if a in t.deps))))
        r = self.cache.get(key)
        if r is not None: return r
        s = 0.0
        for m, c in t.monos:
            p = float(c)
            for a, e in sorted(m, key=lambda x: 0 if x[0].kind == 'ind' else 1):
                if p == 0: break
                v = self.a(a, env)
                p = p * (v if e == 1 else v ** float(e))
            s += p
        self.cache[key] = s
        return s

    def size(self, t, env):
        return int(round(self.t(t, env)))

    def a(self, a, env):
        k = a.kind
        if k == 'idx':
            return env[a]
        if k == 'dim':
            return self.dims[a.data[0]]
        if k == 'sym':
            n, ix = a.data
            v = np.asarray(self.syms[n])
            if ix:
                v = v[tuple(int(round(self.t(i, env))) for i in ix)]
            return float(v)
        if k == 'prime':
            return float(a.data[0])
        if k == 'poly':
            return self.t(a.data[0], env)
        if k == 'ind':
            if a.data[0] == 'gt':
                return 1.0 if self.t(a.data[1], env) > 0 else 0.0
            if a.data[0] == 'all':
                _, b, size, bd = a.data
                return float(all(self.t(bd, {**env, b: i}) for i in range(self.size(size, env))))
            raise NotImplementedError(a.data[0])
        if k == 'sum':
            b, size, bd = a.data
            return sum(self.t(bd, {**env, b: i}) for i in range(self.size(size, env)))
        if k == 'red':
            op, b, size, bd = a.data
            xs = [self.t(bd, {**env, b: i}) for i in range(self.size(size, env))]
            return {'max': max, 'min': min}[op](xs)
        n, args = a.data
        if n == 'pi': return math.pi
        if n == 'inf': return math.inf
        if n == 'nan': return math.nan
        if n == 'I0':
            xq, xl, fl = args
            q = self.t(xq, env)
            N = self.size(xl.size, env)
            xp = [self.t(xl.body, {**env, xl.bvar: i}) for i in range(N)]
            if q < xp[0] or q > xp[-1]: return 0.0
            fp = [self.t(fl.body, {**env, fl.bvar: i}) for i in range(N)]
            return float(np.interp(q, xp, fp))
        xs = [self.t(x, env) for x in args if isinstance(x, Term)]
        f = {'exp': math.exp, 'ln': lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan),
             'floor': math.floor, 'trunc': math.trunc, 'erf': math.erf, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
             'tanh': math.tanh}.get(n)
        if f is None: raise NotImplementedError(n)
        return f(*xs)

    def arr(self, A):
        if not isinstance(A, Arr):
            return float(A)
        shp = tuple(self.size(s, {}) for s in A.shape)
        out = np.zeros(shp)
        for ix in np.ndindex(*shp):
            env = {A.axvar(j): ix[j] for j in range(len(shp))}
            out[ix] = self.t(A.body, env)
        return out
