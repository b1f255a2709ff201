"""Arrays and sequences of symbolic size, with numpy's view/copy semantics."""
import numpy as np
import z3
from . import terms as T
from .terms import (SR, SI, SB, SNum, Unsupported, ctx, zr, zi, zb, mk_int, concrete_int, is_sym, ite, uf, PI)


def idx_term(i):
    if isinstance(i, int):
        return z3.IntVal(i)
    return i


def as_idx(i):
    """index value (int | SI | z3 int) -> int or z3 term"""
    if isinstance(i, (bool, np.bool_)):
        raise Unsupported('bool index')
    if isinstance(i, (int, np.integer)):
        return int(i)
    if isinstance(i, SI):
        c = concrete_int(i.z)
        return c if c is not None else i.z
    if isinstance(i, z3.ArithRef):
        c = concrete_int(i)
        return c if c is not None else i
    if isinstance(i, SR):
        raise Unsupported('real used as index')
    raise Unsupported('index of type %r' % type(i))


def dim(n):
    """shape entry -> int or z3 term"""
    return as_idx(n)


def mkdim(n):
    return n if isinstance(n, int) else mk_int(n)


def I(a):
    return SI(a) if isinstance(a, z3.ArithRef) else a


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    r = z3.simplify(idx_term(a) + idx_term(b))
    return r.as_long() if z3.is_int_value(r) else r


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    r = z3.simplify(idx_term(a) - idx_term(b))
    return r.as_long() if z3.is_int_value(r) else r


def lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a < b)
    return idx_term(a) < idx_term(b)


def le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a <= b)
    return idx_term(a) <= idx_term(b)


def eqi(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a == b)
    return idx_term(a) == idx_term(b)


def decide(c):
    return ctx().branch(c)


def same_dim(a, b):
    """branch on equality of two dims"""
    return decide(eqi(a, b))


class Store:
    __slots__ = ('fn', 'ndim', 'epoch')

    def __init__(self, fn, ndim):
        self.fn = fn
        self.ndim = ndim
        c = ctx()
        self.epoch = len(c.loop_stack)


def _zif(c, a, b):
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


class SymArr:
    __array_ufunc__ = None
    __array_priority__ = 2000
    dtype = np.dtype(float)
    _real = property(lambda s: s)

    def __init__(self, shape, fn=None, store=None, vmap=None, inv=None):
        self.shape_ = tuple(dim(s) for s in shape)
        if store is None:
            store = Store(fn, len(self.shape_))
            vmap, inv = None, None
        self.store, self.vmap, self.inv = store, vmap, inv

    # -- basic attributes --------------------------------------------------
    @property
    def shape(self):
        return tuple(mkdim(s) for s in self.shape_)

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    @property
    def T(self):
        if self.ndim < 2:
            return self
        n = self.ndim
        vm, iv = self._vm(), self._iv()
        return SymArr(self.shape_[::-1], store=self.store,
                      vmap=lambda ix: vm(tuple(ix[::-1])),
                      inv=lambda sx: (lambda c, v: (c, tuple(v[::-1])))(*iv(sx)))

    def transpose(self, *a):
        if a and not (len(a) == 1 and a[0] is None):
            raise Unsupported('transpose axes')
        return self.T

    def _vm(self):
        return self.vmap or (lambda ix: ix)

    def _iv(self):
        return self.inv or (lambda sx: (z3.BoolVal(True), sx))

    def _region(self):
        """predicate: is store index sx inside this view"""
        iv = self._iv()
        shp = self.shape_

        def reg(sx):
            c, v = iv(sx)
            cs = [c]
            for vi, n in zip(v, shp):
                cs += [le(0, vi), lt(vi, n)]
            return z3.And(*cs) if len(cs) > 1 else cs[0]
        return reg

    def _logr(self, region):
        c = ctx()
        if c.loop_stack:
            c.loop_stack[-1].read(self.store, region)

    def snap(self):
        """elements as a pure function of the view index, contents frozen now"""
        self._logr(self._region())
        f, vm = self.store.fn, self._vm()
        return lambda ix: f(vm(tuple(ix)))

    def at(self, *ix):
        """z3 term at (in-range) index"""
        ix = tuple(as_idx(i) for i in ix)
        sx = self._vm()(ix)
        self._logr(lambda t, sx=sx: z3.And(*[eqi(a, b) for a, b in zip(t, sx)]))
        return self.store.fn(sx)

    def __len__(self):
        n = self.shape_[0]
        if isinstance(n, int):
            return n
        return SI(n).__index__()

    def blen(self):
        return mkdim(self.shape_[0])

    def __iter__(self):
        n = self.shape_[0]
        if not isinstance(n, int):
            n = SI(n).__index__()
        for i in range(n):
            yield self[i]

    def __bool__(self):
        if self.ndim == 0 or all(s == 1 for s in self.shape_ if isinstance(s, int)):
            return bool(SR(self.at(*([0] * self.ndim))))
        raise Unsupported('truth of array')

    # -- indexing ----------------------------------------------------------
    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        if any(k is None for k in key):
            raise Unsupported('newaxis')
        if Ellipsis in [k for k in key if not isinstance(k, (SNum, SymArr, np.ndarray))]:
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[p:p + 1] = [slice(None)] * (self.ndim - len(key) + 1)
        if len(key) > self.ndim:
            raise IndexError('too many indices for array')
        key += [slice(None)] * (self.ndim - len(key))
        return key

    def __getitem__(self, key):
        key = self._norm_key(key)
        adv = [i for i, k in enumerate(key) if isinstance(k, (list, tuple, np.ndarray, SymArr, SymList))]
        if adv:
            return self._fancy(key, adv)
        specs, vshape = self._specs(key)
        if not vshape:
            vm = self._vm()
            sx = vm(tuple(s[1] for s in specs))
            self._logr(lambda t, sx=sx: z3.And(*[eqi(a, b) for a, b in zip(t, sx)]))
            return SR(self.store.fn(sx))
        return self._view(specs, vshape)

    def _specs(self, key):
        specs, vshape = [], []
        for d, k in enumerate(key):
            n = self.shape_[d]
            if isinstance(k, slice):
                lo, ln, step = slice_bounds(k, n)
                specs.append(('s', lo, step))
                vshape.append(ln)
            else:
                i = as_idx(k)
                i = norm_index(i, n, d)
                specs.append(('i', i))
        return specs, vshape

    def _view(self, specs, vshape):
        vm, iv = self._vm(), self._iv()

        def vmap(ix):
            out, p = [], 0
            for s in specs:
                if s[0] == 'i':
                    out.append(s[1])
                else:
                    out.append(add(s[1], ix[p]) if s[2] == 1 else sub(s[1], ix[p]))
                    p += 1
            return vm(tuple(out))

        shp = self.shape_

        def inv(sx):
            c, v = iv(sx)
            conds, out = [c], []
            for d, s in enumerate(specs):
                if s[0] == 'i':
                    conds.append(eqi(v[d], s[1]))
                else:
                    out.append(sub(v[d], s[1]) if s[2] == 1 else sub(s[1], v[d]))
            return z3.And(*conds) if len(conds) > 1 else conds[0], tuple(out)
        return SymArr(vshape, store=self.store, vmap=vmap, inv=inv)

    def _fancy(self, key, adv):
        if len(adv) != 1:
            raise Unsupported('multi fancy index')
        d = adv[0]
        lst = key[d]
        if isinstance(lst, SymArr):
            raise Unsupported('fancy index by symbolic array')
        if isinstance(lst, np.ndarray) and lst.dtype == bool:
            raise Unsupported('mask index')
        if isinstance(lst, SymList):
            raise Unsupported('fancy index by symbolic list')
        idxs = [norm_index(as_idx(x), self.shape_[d], d) for x in list(lst)]
        base = self[tuple(slice(None) if i == d else k for i, k in enumerate(key))]
        # position of axis d in base after int keys removed
        p = sum(1 for i in range(d) if isinstance(key[i], slice))
        f = base.snap()
        shp = list(base.shape_)
        shp[p] = len(idxs)

        def fn(ix):
            j = ix[p]
            def at(k):
                t = list(ix)
                t[p] = k
                return f(tuple(t))
            if isinstance(j, int):
                return at(idxs[j])
            r = at(idxs[-1])
            for q in range(len(idxs) - 2, -1, -1):
                r = _zif(eqi(j, q), at(idxs[q]), r)
            return r
        if not idxs:
            fn = lambda ix: z3.RealVal(0)
        return SymArr(shp, fn)

    def __setitem__(self, key, val):
        key = self._norm_key(key)
        if any(isinstance(k, (list, np.ndarray, SymArr, SymList)) for k in key):
            raise Unsupported('fancy assignment')
        specs, vshape = self._specs(key)
        v = self._view(specs, vshape)
        if vshape:
            val = lift(val)
            if isinstance(val, SymArr):
                val = broadcast_to(val, v.shape_)
                g = val.snap()
            else:
                t = zr(val)
                g = lambda ix: t
        else:
            if isinstance(val, SymArr):
                if val.ndim:
                    val = SR(val.at(*([0] * val.ndim)))
            t = zr(val)
            g = lambda ix: t
        reg, inv, old = v._region(), v._iv(), self.store.fn

        def fn(sx):
            c = z3.simplify(reg(sx))
            if z3.is_false(c):
                return old(sx)
            nv = g(inv(sx)[1])
            return _zif(c, nv, old(sx))
        c = ctx()
        if c.loop_stack:
            c.loop_stack[-1].write(self.store, reg, lambda sx: g(inv(sx)[1]))
        self.store.fn = fn

    # -- arithmetic --------------------------------------------------------
    def _bin(self, o, f):
        return elementwise(f, self, o)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __neg__(self): return emap(lambda a: -a, self)
    def __abs__(self): return emap(lambda a: z3.If(a >= 0, a, -a), self)

    def __pow__(self, o):
        if isinstance(o, (int, np.integer)) and 0 <= o <= 6:
            def f(a):
                r = z3.RealVal(1)
                for _ in range(int(o)):
                    r = r * a
                return r
            return emap(f, self)
        raise Unsupported('array power')

    def __rpow__(self, o):
        # a fixed positive base: base ** x
        if isinstance(o, (int, float, np.number)) and float(o) == 10.0:
            return emap(lambda a: uf('pow10')(a), self)
        raise Unsupported('power with an array exponent')

    def _inplace(self, o, f):
        self[(Ellipsis,)] = elementwise(f, self, o)
        return self

    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._inplace(o, lambda a, b: a / b)

    def _cmp(self, o, f):
        return SymBoolArr(elementwise(f, self, o, raw=True))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    __hash__ = object.__hash__

    # -- methods -----------------------------------------------------------
    def copy(self, order=None):
        return SymArr(self.shape_, self.snap())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        r = self.copy()
        memo[id(self)] = r
        return r

    def astype(self, t, copy=True, **k):
        if t in (int, bool, np.int32, np.int64, np.bool_, 'int', 'bool'):
            raise Unsupported('conversion of symbolic data to integers')
        return self.copy()

    def flatten(self, order='C'):
        return self.ravel(order)

    def ravel(self, order='C'):
        if order not in ('C', None) and self.ndim > 1:
            raise Unsupported('order of ravel')
        if self.ndim == 1:
            return self.copy()
        if self.ndim == 2:
            f = self.snap()
            n, m = self.shape_
            if isinstance(m, int) and m == 1:
                return SymArr((n,), lambda ix: f((ix[0], 0)))
            if isinstance(m, int) and m > 1:
                tot = as_idx(I(n) * m)
                def fn(ix):
                    i = ix[0]
                    if isinstance(i, int):
                        return f((i // m, i % m))
                    return f((i / m, i % m))
                return SymArr((tot,), fn)
        raise Unsupported('ravel of symbolic 2-d array')

    def reshape(self, *shape, order='C', **k):
        if order not in ('C', None) or k:
            raise Unsupported('order of reshape')
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(shape)
        if len(shape) == self.ndim and all(not (isinstance(s, int) and s == -1) and same_dim(dim(s), d)
                                           for s, d in zip(shape, self.shape_)):
            return self
        if len(shape) == 1:
            return self.ravel()
        if self.ndim == 1 and len(shape) == 2:
            a, b = shape
            if isinstance(b, (int, np.integer)) and b > 0:
                f = self.snap()
                if isinstance(a, int) and a == -1:
                    raise Unsupported('reshape -1')
                if not decide(eqi(as_idx(a * b), self.shape_[0])):
                    raise ValueError('cannot reshape')
                return SymArr(shape, lambda ix: f((add(as_idx(I(ix[0]) * int(b)), ix[1]),)))
            if isinstance(a, (int, np.integer)) and a == 1:
                f = self.snap()
                if not decide(eqi(dim(b), self.shape_[0])):
                    raise ValueError('cannot reshape')
                return SymArr(shape, lambda ix: f((ix[1],)))
        raise Unsupported('reshape %r -> %r' % (self.shape, shape))

    def sum(self, axis=None):
        if self.ndim == 1 and axis in (None, 0, -1):
            return sym_sum(self)
        raise Unsupported('sum of 2-d')

    def tolist(self):
        if self.ndim == 1:
            return SymList(self.shape[0], lambda k: self[k])
        raise Unsupported('tolist')

    def any(self):
        raise Unsupported('any')

    def all(self):
        raise Unsupported('all')

    def __repr__(self):
        return 'SymArr%r' % (self.shape,)

    def __format__(self, s):
        return repr(self)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('array attribute ' + name)


class SymBoolArr:
    """element-wise comparison result (read only)"""
    __array_ufunc__ = None

    def __init__(self, fn_shape):
        self.fn, self.shape_ = fn_shape

    def __bool__(self):
        raise Unsupported('truth of symbolic comparison array')

    def _forall(self):
        c = ctx()
        ks = [c.skolem_int('ba') for _ in self.shape_]
        raise Unsupported('all() of symbolic comparison array')

    def all(self):
        return self._forall()

    def any(self):
        raise Unsupported('any() of symbolic comparison array')


SUMF = z3.Function('SUM', z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.RealSort())


def sym_sum(a):
    f = a.snap()
    n = a.shape_[0]
    if isinstance(n, int):
        r = z3.RealVal(0)
        for i in range(n):
            r = r + f((i,))
        return SR(r)
    lam = T.zlambda(lambda K: f((K,)))
    return SR(SUMF(lam, n))


def norm_index(i, n, axis=0):
    if isinstance(i, int) and isinstance(n, int):
        j = i + n if i < 0 else i
        if not 0 <= j < n:
            raise IndexError('index %d is out of bounds for axis %d with size %d' % (i, axis, n))
        return j
    if decide(lt(i, 0)):
        i = add(i, n)
    if not decide(z3.And(le(0, i), lt(i, n))):
        raise IndexError('index out of bounds for axis %d' % axis)
    return i


def clamp(i, n):
    if isinstance(i, int) and i >= 0 and isinstance(n, int):
        return min(i, n)
    if decide(lt(i, 0)):
        i = add(i, n)
        if decide(lt(i, 0)):
            return 0
    if decide(lt(n, i)):
        return n
    return i


def slice_bounds(s, n):
    step = 1 if s.step is None else int(s.step)
    if step == 1:
        lo = 0 if s.start is None else clamp(as_idx(s.start), n)
        hi = n if s.stop is None else clamp(as_idx(s.stop), n)
        ln = sub(hi, lo)
        if decide(lt(ln, 0)):
            ln = 0
        return lo, ln, 1
    if step == -1 and s.start is None and s.stop is None:
        return sub(n, 1), n, -1
    if isinstance(n, int) and all(x is None or isinstance(as_idx(x), int) for x in (s.start, s.stop)):
        raise Unsupported('strided view')
    raise Unsupported('slice step %r' % step)


def is_symseq(x):
    return isinstance(x, (SymArr, SymList)) or (isinstance(x, BvList) and x.sym is not None)


def deep_sym(x, depth=3):
    """does x contain an unbounded symbolic array/sequence"""
    if isinstance(x, (SymArr, SymList, SymBoolArr)):
        return True
    if isinstance(x, BvList) and x.sym is not None:
        return True
    if isinstance(x, SI):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(deep_sym(e, depth - 1) for e in x)
    if isinstance(x, slice):
        return any(isinstance(e, SI) for e in (x.start, x.stop, x.step))
    return False


def deep_scalar(x, depth=6):
    """does x contain symbolic scalars (bounded objects)"""
    if isinstance(x, SNum) or isinstance(x, SB):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if depth and isinstance(x, (list, tuple)):
        return any(deep_scalar(e, depth - 1) for e in x)
    return False


def const_arr(a):
    """concrete numpy array -> SymArr"""
    a = np.asarray(a)
    shp = a.shape
    flat = {}

    def fn(ix):
        if all(isinstance(i, int) for i in ix):
            return zr(a[tuple(ix)])
        # resolve first symbolic coordinate by case split
        for d, i in enumerate(ix):
            if not isinstance(i, int):
                n = shp[d]
                if n == 0:
                    return z3.RealVal(0)
                def at(k):
                    t = list(ix)
                    t[d] = k
                    return fn(tuple(t))
                r = at(n - 1)
                for k in range(n - 2, -1, -1):
                    v = at(k)
                    r = v if v.eq(r) else z3.If(idx_term(i) == k, v, r)
                return r
    return SymArr(shp, fn)


def lift(x):
    """anything array-like -> SymArr, or a scalar"""
    if isinstance(x, SymArr):
        return x
    if isinstance(x, (SNum, SB)):
        return x
    if isinstance(x, np.ndarray):
        return const_arr(x) if x.ndim else x.item()
    if isinstance(x, (SymList,)) or isinstance(x, (list, tuple)):
        return make_array(x)
    if isinstance(x, (int, float, np.number, np.bool_, bool)):
        return x
    m = __import__('sympy')
    if isinstance(x, m.Basic):
        return zr_sympy(x)
    raise Unsupported('cannot lift %r to an array' % type(x))


def zr_sympy(x):
    if x.is_number:
        return SR(zr(x))
    raise Unsupported('sympy expression in numeric array')


def make_array(x):
    if isinstance(x, BvList) and x.sym is not None:
        x = x.sym
    if isinstance(x, SymList):
        n = dim(x.n)
        c = ctx()
        probe = x.get(c_probe(n))
        probe = lift(probe)
        if isinstance(probe, SymArr):
            shp = probe.shape_
            for s in shp:
                if not isinstance(s, int) and _mentions_probe(s):
                    raise Unsupported('ragged symbolic list')

            def fn(ix):
                row = lift(x.get(I(ix[0])))
                return row.at(*ix[1:])
            return SymArr((n,) + shp, fn)
        return SymArr((n,), lambda ix: zr(x.get(I(ix[0]))))
    items = [lift(e) for e in x]
    if not items:
        return SymArr((0,), lambda ix: z3.RealVal(0))
    if any(isinstance(e, SymArr) and e.ndim for e in items):
        if not all(isinstance(e, SymArr) for e in items):
            raise ValueError('inhomogeneous shape')
        shp = items[0].shape_
        for e in items[1:]:
            if len(e.shape_) != len(shp) or not all(same_dim(a, b) for a, b in zip(e.shape_, shp)):
                raise ValueError('inhomogeneous shape')
        fs = [e.snap() for e in items]
        return SymArr((len(items),) + shp, lambda ix: pick(fs, ix[0], tuple(ix[1:])))
    zs = [zr(e) for e in items]
    return SymArr((len(zs),), lambda ix: pick([lambda r, z=z: z for z in zs], ix[0], ()))


def pick(fs, j, rest):
    if isinstance(j, int):
        return fs[j](rest)
    r = fs[-1](rest)
    for q in range(len(fs) - 2, -1, -1):
        v = fs[q](rest)
        r = v if v.eq(r) else z3.If(idx_term(j) == q, v, r)
    return r


PROBE = z3.Int('probe!idx')


def c_probe(n):
    c = ctx()
    c.solver.add(z3.And(PROBE >= 0, z3.Or(idx_term(n) <= 0, PROBE < idx_term(n))))
    return SI(PROBE)


def _mentions_probe(t):
    from .terms import _walk
    return any(e.eq(PROBE) for e in _walk([t]))


def broadcast_to(a, shp):
    """broadcast SymArr a to shape_ shp (dims as terms)"""
    f = a.snap()
    off = len(shp) - a.ndim
    if off < 0:
        # numpy allows leading ones
        if all(isinstance(s, int) and s == 1 for s in a.shape_[:-off]):
            g = f
            f = lambda ix: g((0,) * (-off) + tuple(ix))
            return broadcast_to(SymArr(a.shape_[-off:], f), shp)
        raise ValueError('could not broadcast input array')
    use = []
    for d, s in enumerate(a.shape_):
        if isinstance(s, int) and s == 1 and not (isinstance(shp[d + off], int) and shp[d + off] == 1):
            use.append(False)
        elif same_dim(s, shp[d + off]):
            use.append(True)
        elif decide(eqi(s, 1)):
            use.append(False)
        else:
            raise ValueError('could not broadcast input array from shape into shape')
    return SymArr(shp, lambda ix: f(tuple(ix[d + off] if use[d] else 0 for d in range(len(use)))))


def bcast_shape(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif same_dim(x, y):
            out.append(x if isinstance(x, int) else y)
        elif decide(eqi(x, 1)):
            out.append(y)
        elif decide(eqi(y, 1)):
            out.append(x)
        else:
            raise ValueError('operands could not be broadcast together')
    return tuple(out)


def elementwise(f, a, b, raw=False):
    a, b = lift(a), lift(b)
    if not isinstance(a, SymArr):
        za = zr(a)
        fb = b.snap()
        shp, fn = b.shape_, (lambda ix: f(za, fb(ix)))
    elif not isinstance(b, SymArr):
        zb_ = zr(b)
        fa = a.snap()
        shp, fn = a.shape_, (lambda ix: f(fa(ix), zb_))
    else:
        shp = bcast_shape(a.shape_, b.shape_)
        fa, fb = broadcast_to(a, shp).snap(), broadcast_to(b, shp).snap()
        fn = lambda ix: f(fa(ix), fb(ix))
    if raw:
        return fn, shp
    return SymArr(shp, fn)


def emap(f, a):
    g = a.snap()
    return SymArr(a.shape_, lambda ix: f(g(ix)))


# ---------------------------------------------------------------------------
class SymList:
    """Immutable sequence of symbolic length; get(k) builds element k on demand."""
    def __init__(self, n, get):
        self.n, self.get = n, get

    def blen(self):
        return self.n

    def __len__(self):
        return self.n if isinstance(self.n, int) else self.n.__index__()

    def __iter__(self):
        n = self.n if isinstance(self.n, int) else self.n.__index__()
        for i in range(n):
            yield self.get(i)

    def __getitem__(self, k):
        if isinstance(k, slice):
            lo, ln, st = slice_bounds(k, dim(self.n))
            if st == 1:
                return SymList(mkdim(ln), lambda i: self.get(mkdim(add(as_idx(i), lo))))
            return SymList(mkdim(ln), lambda i: self.get(mkdim(sub(lo, as_idx(i)))))
        i = norm_index(as_idx(k), dim(self.n))
        return self.get(I(i))

    def __add__(self, o):
        return seq_concat(self, o)

    def __radd__(self, o):
        return seq_concat(o, self)

    def __repr__(self):
        return 'SymList(%r)' % (self.n,)

    def __deepcopy__(self, memo):
        import copy
        return SymList(self.n, lambda k: copy.deepcopy(self.get(k)))


def as_seq(x):
    """-> (n, get) for any indexable sequence"""
    if isinstance(x, BvList):
        if x.sym is not None:
            return x.sym.n, x.sym.get
        return list.__len__(x), lambda k: list.__getitem__(x, _pyidx(k))
    if isinstance(x, SymList):
        return x.n, x.get
    if isinstance(x, SymArr):
        return x.blen(), lambda k: x[k]
    if isinstance(x, (list, tuple, np.ndarray, range)):
        def get(k):
            if isinstance(k, int):
                return x[k]
            return sym_select(x, k)
        return len(x), get
    if isinstance(x, dict):
        ks = list(x)
        return len(ks), lambda k: ks[_pyidx(k)]
    raise Unsupported('sequence of type %r' % type(x))


def _pyidx(k):
    return k if isinstance(k, int) else k.__index__()


def sym_select(x, k):
    """element of a concrete sequence at a symbolic position"""
    if len(x) == 0:
        raise IndexError
    vals = [e for e in x]
    if all(isinstance(v, (SNum, int, float, np.number)) for v in vals):
        r = vals[-1]
        for q in range(len(vals) - 2, -1, -1):
            r = ite(idx_term(as_idx(k)) == q, vals[q], r)
        return r
    for q in range(len(vals)):
        if decide(eqi(as_idx(k), q)):
            return vals[q]
    raise IndexError


def seq_concat(a, b):
    na, ga = as_seq(a)
    nb, gb = as_seq(b)
    if isinstance(na, int) and na == 0:
        return SymList(nb, gb)
    if isinstance(nb, int) and nb == 0:
        return SymList(na, ga)

    def get(k):
        if decide(lt(as_idx(k), dim(na))):
            return ga(k)
        return gb(mkdim(sub(as_idx(k), dim(na))))
    r = SymList(na + nb, get)
    r.parts = (getattr(a, 'parts', None) or (a,)) + (getattr(b, 'parts', None) or (b,))
    return r


class BvList(list):
    """python list that can become symbolic when a summarised loop appends to it"""
    sym = None

    def _epoch(self):
        return getattr(self, 'epoch', 0)

    def append(self, x):
        from . import terms
        c = terms.CTX
        if c is not None and c.loop_stack and self._epoch() < len(c.loop_stack):
            c.loop_stack[-1].append(self, x)
            return
        if self.sym is not None:
            self.sym = seq_concat(self.sym, [x])
            return
        list.append(self, x)

    def _mut(self):
        from . import terms
        c = terms.CTX
        if c is not None and c.loop_stack and self._epoch() < len(c.loop_stack):
            raise Unsupported('list mutation in summarised loop')
        if self.sym is not None:
            raise Unsupported('mutation of symbolic list')

    def extend(self, o):
        if is_symseq(o):
            if self._epoch() < len(ctx().loop_stack):
                raise Unsupported('list mutation in summarised loop')
            self.sym = seq_concat(self if self.sym is None else self.sym, o)
            return
        self._mut()
        list.extend(self, o)

    def insert(self, i, x):
        self._mut()
        list.insert(self, i, x)

    def pop(self, *a):
        self._mut()
        return list.pop(self, *a)

    def __setitem__(self, k, v):
        self._mut()
        list.__setitem__(self, k, v)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if self.sym is not None or is_symseq(o):
            return seq_concat(self, o)
        return BvList(list.__add__(self, list(o)))

    def __getitem__(self, k):
        if self.sym is not None:
            return self.sym[k]
        if isinstance(k, SI):
            try:
                k = k.__index__()
            except Unsupported:
                return sym_select(list(self), I(norm_index(as_idx(k), list.__len__(self))))
        if isinstance(k, slice):
            return BvList(list.__getitem__(self, k))
        return list.__getitem__(self, k)

    def __len__(self):
        if self.sym is not None:
            return len(self.sym)
        return list.__len__(self)

    def __iter__(self):
        if self.sym is not None:
            return iter(self.sym)
        return list.__iter__(self)

    def __deepcopy__(self, memo):
        import copy
        if self.sym is not None:
            r = BvList()
            r.sym = copy.deepcopy(self.sym, memo)
            return r
        return BvList([copy.deepcopy(e, memo) for e in self])

    def __mul__(self, n):
        if isinstance(n, SI):
            try:
                n = n.__index__()
            except Unsupported:
                items = list(self)
                if len(items) == 1:
                    return SymList(n, lambda k: items[0])
                raise
        return BvList(list.__mul__(self, n))
    __rmul__ = __mul__
