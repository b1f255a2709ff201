"""One contract, three ways to run it.

sym   : sizes and values symbolic (obligation for every size and value)
bsym  : sizes enumerated up to a stated bound, values symbolic
conc  : genuine modules on generated concrete inputs (bounded stand-in and replay harness)
jit   : as conc, with numba compilation switched on
"""
import hashlib, importlib, itertools, math, os, random, sys
import numpy as np
from . import terms as T
from .terms import SR, SI, SB, SNum, Unsupported, PathEnd, zr, zi, zb, mk_int
import z3


class Missing(Exception):
    """the code object a contract is anchored to does not exist (any more)"""


class Discard(Exception):
    """generated input outside the precondition"""


class EnsureFail:
    def __init__(self, name, detail):
        self.name, self.detail = name, detail


def _h(*a):
    return int(hashlib.sha256(repr(a).encode()).hexdigest()[:12], 16)


class World:
    def __init__(self, mode, seed=0, replay=None, size=None):
        self.mode = mode
        self.symbolic = mode in ('sym', 'bsym')
        self.rng = random.Random(seed)
        self.nprng = np.random.RandomState(seed % (2 ** 31))
        self.seed = seed
        self.replay = replay or {}
        self.inputs = {}
        self.fails = []
        self.nensure = 0
        self.size = size
        self.tol = 1e-9
        if mode == 'bsym' and T.CTX is not None:
            T.CTX.bounded = True

    # -- code under contract ------------------------------------------------
    def mod(self, path):
        try:
            return importlib.import_module(path)
        except ModuleNotFoundError as e:
            if str(e.name).startswith('beluga'):
                raise Missing(path)
            raise

    def get(self, path, *names):
        m = self.mod(path)
        out = []
        for n in names:
            o = m
            for part in n.split('.'):
                if not hasattr(o, part):
                    raise Missing(path + ':' + n)
                o = getattr(o, part)
            out.append(o)
        return out[0] if len(out) == 1 else tuple(out)

    def attr(self, o, *names):
        """internal attribute used by an inductive contract (absent: the contract does not apply)"""
        for n in names:
            if not hasattr(o, n):
                raise Missing('%s.%s' % (type(o).__name__, n))
        return getattr(o, names[0])

    # -- inputs -----------------------------------------------------------------
    def dim(self, name, lo, hi, split=()):
        """size in lo..hi for bounded modes; any size >= lo in sym (sizes in `split` are separate cases)"""
        if name in self.replay and not self.symbolic:
            v = int(self.replay[name])
            v = max(lo, min(v, hi + 4))
        elif self.mode == 'sym':
            c = T.ctx()
            z = z3.Int(name)
            c.draws[name] = ('int', z)
            c.index_terms.append(z)
            c.assume(z >= lo)
            for v in split:
                if c.branch(z == v):
                    return v
            return SI(z)
        elif self.mode == 'bsym':
            v = lo + T.ctx().choose(hi - lo + 1)
            T.ctx().draws[name] = ('choice', v)
        else:
            v = self.rng.randint(lo, hi)
        self.inputs[name] = v
        return v

    def int_in(self, name, lo, hi):
        """an integer between terms lo and hi (inclusive), symbolic in sym mode"""
        if self.mode == 'sym':
            c = T.ctx()
            z = z3.Int(name)
            c.draws[name] = ('int', z)
            c.index_terms.append(z)
            c.assume(z3.And(z >= zi(lo), z <= zi(hi)))
            return SI(z)
        if self.mode == 'bsym':
            lo, hi = int(lo), int(hi)
            if hi < lo:
                raise PathEnd('empty range')
            v = lo + T.ctx().choose(hi - lo + 1)
            T.ctx().draws[name] = ('choice', v)
        elif name in self.replay:
            v = max(lo, min(int(self.replay[name]), hi))
        else:
            if hi < lo:
                raise Discard()
            v = self.rng.randint(lo, hi)
        self.inputs[name] = v
        return v

    def choice(self, name, opts):
        opts = list(opts)
        if self.symbolic:
            i = T.ctx().choose(len(opts))
            T.ctx().draws[name] = ('choice', i)
        elif name in self.replay and isinstance(self.replay[name], int) and 0 <= self.replay[name] < len(opts):
            i = self.replay[name]
        else:
            i = self.rng.randrange(len(opts))
        self.inputs[name] = i
        return opts[i]

    def _num(self, lo, hi):
        if lo is None and hi is None:
            lo, hi = -3.0, 3.0
        elif lo is None:
            lo = hi - 4.0
        elif hi is None:
            hi = lo + 4.0
        v = self.rng.uniform(lo, hi)
        return v

    def real(self, name, lo=None, hi=None):
        if self.symbolic:
            c = T.ctx()
            z = z3.Real(name)
            c.draws[name] = ('real', z)
            if lo is not None:
                c.add(z > zr(lo))
            if hi is not None:
                c.add(z < zr(hi))
            return SR(z)
        if name in self.replay and isinstance(self.replay[name], (int, float)):
            v = float(self.replay[name])
            if (lo is not None and v <= lo) or (hi is not None and v >= hi):
                v = self._num(lo, hi)
        else:
            v = self._num(lo, hi)
        self.inputs[name] = v
        return v

    def arr(self, name, *shape, lo=None, hi=None):
        if self.mode == 'sym':
            from .symarr import SymArr, idx_term, dim as dm
            c = T.ctx()
            f = z3.Function(name, *([z3.IntSort()] * len(shape)), z3.RealSort())
            fn = lambda ix: f(*[idx_term(i) for i in ix])
            c.draws[name] = ('arr', (fn, [dm(s) for s in shape]))
            if lo is not None:
                raise Unsupported('bounded array in sym mode')
            return SymArr(shape, fn)
        shape = tuple(int(s) for s in shape)
        if self.mode == 'bsym':
            c = T.ctx()
            a = np.empty(shape, dtype=object)
            zs = {}
            for i in np.ndindex(*shape):
                z = z3.Real('%s[%s]' % (name, ','.join(map(str, i))))
                zs[i] = z
                if lo is not None:
                    c.add(z > zr(lo))
                if hi is not None:
                    c.add(z < zr(hi))
                a[i] = SR(z)
            c.draws[name] = ('arr', (lambda ix: zs[tuple(ix)], list(shape)))
            return a
        a = np.empty(shape)
        r = self.replay.get(name)
        vals = r.get('vals') if isinstance(r, dict) else None
        for i in np.ndindex(*shape):
            k = ','.join(map(str, i))
            v = vals.get(k) if vals else None
            if v is None or (lo is not None and v <= lo) or (hi is not None and v >= hi):
                v = self._num(lo, hi)
            a[i] = v
        self.inputs[name] = {'shape': list(shape), 'vals': {','.join(map(str, i)): float(a[i]) for i in np.ndindex(*shape)}}
        return a

    def times(self, name, n, start=None, ordered=False):
        """strictly increasing time grid (assumed increasing at every index pair used by a proof)"""
        if self.mode == 'sym':
            t = self.arr(name, n)
            c = T.ctx()
            f = t.snap()
            zn = zi(n)
            for d in (1,):
                c.forall(lambda i: z3.Implies(z3.And(i >= 0, i + 1 < zn), f((i,)) < f((i + 1,))))
            c.add(z3.Implies(zn > 1, f((0,)) < f((z3.simplify(zn - 1),))))
            if ordered:
                order_fact(c, f, zn)
            if start is not None:
                c.add(f((0,)) == zr(start))
            return t
        t = self.arr(name, n)
        if self.mode == 'bsym':
            c = T.ctx()
            for i in range(len(t) - 1):
                c.add(t[i].z < t[i + 1].z)
            if start is not None:
                c.add(t[0].z == zr(start))
            return t
        t = np.sort(t)
        for i in range(1, len(t)):
            if t[i] - t[i - 1] < 1e-3:
                t[i] = t[i - 1] + 0.1
        if start is not None:
            t = t - t[0] + start
        self.inputs[name] = {'shape': [len(t)], 'vals': {str(i): float(x) for i, x in enumerate(t)}}
        return t

    def fn(self, name, out=None, scale=1.0):
        """an arbitrary function of its (vector) arguments; out = None scalar, n vector of length n"""
        if self.mode == 'sym':
            from .symarr import SymArr, idx_term, lift, dim as dm

            def key(args):
                sig, ts = [], []
                for a in args:
                    a = lift(a)
                    if isinstance(a, SymArr) and a.ndim == 1:
                        ts.append(z3.simplify(idx_term(a.shape_[0])))
                        sig.append(z3.IntSort())
                    if isinstance(a, SymArr):
                        if a.ndim == 0:
                            a = SR(a.at())
                        elif a.ndim == 1 and isinstance(a.shape_[0], int) and a.shape_[0] <= 4:
                            g = a.snap()
                            es = [g((i,)) for i in range(a.shape_[0])]

                            def at(K, es=es):
                                r = es[-1] if es else z3.RealVal(0)
                                for i in range(len(es) - 2, -1, -1):
                                    r = z3.If(K == i, es[i], r)
                                return r
                            ts.append(T.zlambda(at))
                            sig.append(z3.ArraySort(z3.IntSort(), z3.RealSort()))
                            continue
                        elif a.ndim == 1:
                            ts.append(T.zlambda(lambda K, g=a.snap(): g((K,))))
                            sig.append(z3.ArraySort(z3.IntSort(), z3.RealSort()))
                            continue
                        else:
                            raise Unsupported('matrix argument')
                    ts.append(zr(a))
                    sig.append(z3.RealSort())
                return sig, ts

            def f(*args):
                sig, ts = key(args)
                if out is None:
                    return SR(z3.Function(name, *sig, z3.RealSort())(*ts))
                if isinstance(out, tuple):
                    F2 = z3.Function(name, *sig, z3.IntSort(), z3.IntSort(), z3.RealSort())
                    return SymArr(out, lambda ix: F2(*ts, idx_term(ix[0]), idx_term(ix[1])))
                F = z3.Function(name, *sig, z3.IntSort(), z3.RealSort())
                return SymArr((out,), lambda ix: F(*ts, idx_term(ix[0])))
            return f

        def flat(args):
            xs = []
            for a in args:
                if isinstance(a, (list, tuple, np.ndarray)):
                    xs.extend(flat(list(a.reshape(-1)) if isinstance(a, np.ndarray) else a))
                else:
                    xs.append(a)
            return xs
        if self.mode == 'bsym':
            def f(*args):
                xs = [zr(x) for x in flat(args)]
                ns = len(xs)
                mk = lambda nm: z3.Function('%s/%d' % (nm, ns), *([z3.RealSort()] * (ns + 1)))(*xs) if ns else z3.Real(nm)
                if out is None:
                    return SR(mk(name))
                if isinstance(out, tuple):
                    r = np.empty(out, dtype=object)
                    for i in np.ndindex(*out):
                        r[i] = SR(mk('%s_%d_%d' % ((name,) + i)))
                    return r
                r = np.empty(int(out), dtype=object)
                for i in range(int(out)):
                    r[i] = SR(mk('%s_%d' % (name, i)))
                return r
            return f

        sd = _h(self.seed, name)

        def coef(i, j):
            return ((_h(sd, i, j) % 2000) / 1000.0 - 1.0)

        def one(i, xs):
            s = coef(i, -1)
            for j, x in enumerate(xs):
                s += coef(i, j) * x + 0.1 * coef(i, 1000 + j) * x * x
            return scale * (math.sin(s) + 0.3 * s)

        def f(*args):
            xs = [float(x) for x in flat(args)]
            if out is None:
                return one(0, xs)
            if isinstance(out, tuple):
                return np.array([one(i, xs) for i in range(int(out[0] * out[1]))], dtype=float).reshape(out)
            return np.array([one(i, xs) for i in range(int(out))])
        return f

    # -- logic -------------------------------------------------------------------
    def assume(self, cond):
        if self.symbolic:
            T.ctx().assume(zb(cond) if not isinstance(cond, np.ndarray) else zb(bool(cond.all())))
        elif not cond:
            raise Discard()

    def ensure(self, name, cond, detail=''):
        self.nensure += 1
        if self.symbolic and isinstance(cond, (SB, z3.BoolRef)):
            return T.ctx().prove(name, cond)
        if self.symbolic:
            return T.ctx().prove(name, bool(cond))
        if not bool(cond):
            self.fails.append(EnsureFail(name, str(detail)[:800]))
            return False
        return True

    def mention(self, *idx):
        """proof hint: general facts are instantiated at these indices too"""
        if self.mode == 'sym':
            T.ctx().index_terms.extend(z3.simplify(zi(i)) for i in idx)

    def is_true(self, cond):
        return bool(cond)

    def ensure_eq(self, name, a, b, tol=None):
        """a and b are the same value (numbers, arrays, nested sequences, None, strings)"""
        tol = tol or self.tol
        if self.symbolic:
            r = self._seq(a, b, name)
            return r
        self.nensure += 1
        d = cdiff(a, b, tol)
        if d is not None:
            self.fails.append(EnsureFail(name, d))
            return False
        return True

    def _seq(self, a, b, name):
        from .symarr import SymArr, lift, deep_sym, same_dim, eqi, idx_term
        c = T.ctx()
        if deep_sym(a) or deep_sym(b):
            a, b = lift(a), lift(b)
            if not isinstance(a, SymArr) or not isinstance(b, SymArr):
                if isinstance(a, SymArr) or isinstance(b, SymArr):
                    return self.ensure(name + '.kind', False)
                self.nensure += 1
                return c.prove(name, zr(a) == zr(b))
            if a.ndim != b.ndim:
                return self.ensure(name + '.ndim', False)
            self.nensure += 2
            ok = c.prove(name + '.shape', z3.And(*[eqi(x, y) for x, y in zip(a.shape_, b.shape_)])
                         if a.ndim else z3.BoolVal(True))
            ks = [c.skolem_int('e') for _ in range(a.ndim)]
            rng = []
            for k, n in zip(ks, a.shape_):
                rng += [k >= 0, k < idx_term(n)]
            fa, fb = a.snap(), b.snap()
            g = fa(tuple(ks)) == fb(tuple(ks))
            r = c.prove(name + '.values', z3.Implies(z3.And(*rng) if rng else z3.BoolVal(True), g))
            return ok and r
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                return self.ensure(name + '.shape', False, '%s vs %s' % (a.shape, b.shape))
            self.nensure += 1
            return c.prove(name, z3.And(*([z3.BoolVal(True)] + [zr(x) == zr(y) for x, y in zip(a.reshape(-1), b.reshape(-1))])))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return self.ensure(name + '.len', False)
            r = True
            for i, (x, y) in enumerate(zip(a, b)):
                r = self._seq(x, y, '%s[%d]' % (name, i)) and r
            return r
        if isinstance(a, (SNum, int, float, np.number)) and isinstance(b, (SNum, int, float, np.number)) \
                and not isinstance(a, bool) and not isinstance(b, bool):
            if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
                return self.ensure(name, True)
            self.nensure += 1
            return c.prove(name, zr(a) == zr(b))
        if isinstance(a, SB) or isinstance(b, SB):
            return self.ensure(name, SB(zb(a) == zb(b)))
        return self.ensure(name, a == b)

    def ensure_raises(self, name, fn, kinds=Exception):
        try:
            fn()
        except kinds as e:
            return self.ensure(name, True)
        return self.ensure(name, False, 'no exception raised')

    # -- symbolic expressions ---------------------------------------------------
    def expr_eq(self, name, a, b, detail=''):
        """two sympy expressions denote the same function"""
        from . import sx
        self.nensure += 1
        if self.symbolic:
            return sx.prove_eq(T.ctx(), name, a, b)
        ok, d = sx.num_eq(a, b, self.rng)
        if not ok:
            self.fails.append(EnsureFail(name, d))
        return ok

    def snapshot(self, arr):
        """value of an array now (independent of later writes)"""
        return arr.copy()

    def rowmap(self, n, fn, *arrs, out=None):
        """spec: the array [fn(a[i], b[i], ...) for i < n] (out: length of a vector result, else scalar)"""
        if self.mode == 'sym':
            from .symarr import SymArr
            snaps = [(a.snap(), a.shape_) for a in arrs]

            def row(i):
                return [SymArr(tuple(sh[1:]), lambda ix, f=f: f((i,) + tuple(ix))) if len(sh) > 1 else SR(f((i,))) for f, sh in snaps]
            if out is None:
                return SymArr((n,), lambda ix: zr(fn(*row(ix[0]))))
            return SymArr((n, out), lambda ix: fn(*row(ix[0])).snap()((ix[1],)))
        r = [fn(*[a[i] for a in arrs]) for i in range(int(n))]
        if self.mode == 'bsym':
            a = np.empty((int(n),) + (() if out is None else (int(out),)), dtype=object)
            for i, x in enumerate(r):
                a[i] = x
            return a
        return np.array(r, dtype=float).reshape((int(n),) + (() if out is None else (int(out),)))

    def new_list(self, xs=()):
        if self.mode == 'sym':
            from .symarr import BvList
            return BvList(xs)
        return list(xs)


def order_fact(c, f, zn, down=None):
    """assume the grid f is strictly increasing (decreasing where `down` holds)"""
    c.forall2(lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < zn), f((i,)) < f((j,)) if down is None else
                                      z3.If(down, f((j,)) < f((i,)), f((i,)) < f((j,)))))
    for z in (z3.IntVal(0), z3.simplify(zn - 1)):
        c.index_terms.append(z)


def cdiff(a, b, tol):
    """None if concretely equal, else description"""
    if a is None or b is None:
        return None if a is b else '%r vs %r' % (a, b)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        return None if a == b else '%r vs %r' % (a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return 'keys %r vs %r' % (list(a), list(b))
        for k in a:
            d = cdiff(a[k], b[k], tol)
            if d:
                return '[%r] %s' % (k, d)
        return None
    try:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return 'length %d vs %d' % (len(a), len(b))
            for i, (p, q) in enumerate(zip(a, b)):
                d = cdiff(p, q, tol)
                if d:
                    return '[%d] %s' % (i, d)
            return None
        return None if a == b else '%r vs %r' % (a, b)
    if x.shape != y.shape:
        return 'shape %s vs %s' % (x.shape, y.shape)
    if x.size == 0:
        return None
    if np.array_equal(x, y, equal_nan=True):
        return None
    nx, ny = np.isnan(x), np.isnan(y)
    if (nx != ny).any():
        return 'nan mismatch: got %s expected %s' % (short(x), short(y))
    m = ~nx
    err = np.abs(x[m] - y[m])
    sc = tol * (1 + np.maximum(np.abs(x[m]), np.abs(y[m])))
    if (err <= sc).all():
        return None
    return 'got %s expected %s' % (short(x), short(y))


def short(x):
    return np.array2string(np.asarray(x), threshold=30, precision=8).replace('\n', ' ')[:400]


# ---------------------------------------------------------------------------
REGISTRY = {}


class Contract:
    def __init__(self, fn, prop, name, modes, funcs, trials, budget, bound, thorough, finding=None, assumes=()):
        self.finding, self.assumes = finding, list(assumes)
        self.fn, self.prop, self.name, self.modes = fn, prop, name, modes
        self.funcs, self.trials, self.budget, self.bound, self.thorough = funcs, trials, budget, bound, thorough


def contract(prop, modes='conc bsym', funcs=(), trials=30, budget=40, bound='', thorough=None,
             finding=None, assumes=()):
    """Register a contract.  funcs: functions of /repo it specifies; bound: stated bound of the bsym tier."""
    def deco(fn):
        for p in prop.split():
            REGISTRY.setdefault(p, []).append(
                Contract(fn, p, fn.__name__, modes.split(), list(funcs), trials, budget, bound, thorough, finding, assumes))
        return fn
    return deco
