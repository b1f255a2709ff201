"""numpy as seen by the code under proof in the symbolic processes.

Every override states numpy's documented behaviour on arrays of symbolic size
(SymArr) or on object arrays holding symbolic reals.  A call with symbolic-size
data that has no override is Unsupported (never silently approximated); a call
on concrete / bounded data goes to real numpy.
"""
import math
import numpy as real
import z3
from . import terms as T
from .terms import SR, SI, SB, SNum, Unsupported, ctx, zr, zi, mk_int, ite, uf
from . import symarr as A
from .symarr import SymArr, SymList, BvList, SymBoolArr, lift, deep_sym, deep_scalar


def symbolic(*xs):
    return any(deep_sym(x) for x in xs)


def scal(*xs):
    return any(deep_scalar(x) for x in xs)


def plain(x):
    """BvList -> list, recursively, for real numpy"""
    if isinstance(x, BvList):
        return [plain(e) for e in x]
    if isinstance(x, tuple):
        return tuple(plain(e) for e in x)
    if isinstance(x, list):
        return [plain(e) for e in x]
    return x


def obj(shape, val):
    a = real.empty(shape, dtype=object)
    a.fill(val)
    return a


def int_shape(shape):
    def one(s):
        if isinstance(s, (SI, SR)):
            return None
        return int(s)
    if isinstance(shape, (list, tuple, real.ndarray)):
        r = tuple(one(s) for s in shape)
    else:
        r = (one(shape),)
    return None if any(x is None for x in r) else r


def shape_tuple(shape):
    if isinstance(shape, (list, tuple)):
        return tuple(shape)
    return (shape,)


ACTIVE = lambda: T.CTX is not None
A_ARR = z3.ArraySort(z3.IntSort(), z3.RealSort())
INT_DT = (int, bool, real.int32, real.int64, real.bool_)


def only(k, **ok):
    """options outside the stated behaviour are not silently dropped"""
    for q, v in k.items():
        if q in ('subok', 'like', 'casting'):
            continue
        if q == 'order' and v in (None, 'C', 'K', 'A'):
            continue
        if q == 'keepdims' and not v:
            continue
        if q in ok and (ok[q] is None or v == ok[q]):
            continue
        raise Unsupported('numpy option %s=%r' % (q, v))


def floats(dtype):
    if dtype is not None and dtype in INT_DT:
        raise Unsupported('conversion of symbolic data to integers')


class Shim:
    """module stand-in"""

    def __init__(self):
        self.__dict__['_linalg'] = LinalgShim()

    def __getattr__(self, name):
        v = getattr(real, name)
        if callable(v) and not isinstance(v, type):
            def wrapped(*a, **k):
                if symbolic(*a, *k.values()):
                    raise Unsupported('numpy.%s on symbolic-size data' % name)
                a = tuple(plain(x) for x in a)
                if scal(*a):
                    k = {q: w for q, w in k.items() if q != 'dtype'}
                return v(*a, **k)
            wrapped.__name__ = name
            return wrapped
        return v

    ndarray = real.ndarray          # isinstance is routed through b_isinstance in sym mode
    pi = math.pi
    nan = real.nan
    inf = real.inf

    @property
    def linalg(self):
        return self._linalg

    # -- construction -------------------------------------------------------
    def array(self, x, dtype=None, copy=True, **k):
        if symbolic(x):
            only(k)
            floats(dtype)
            y = lift(x)
            if isinstance(y, SymArr):
                return y.copy()
            return y
        if isinstance(x, SNum):
            only(k)
            floats(dtype)
            a = real.empty((), dtype=object)
            a[()] = x
            return a
        x = plain(x)
        if scal(x):
            floats(dtype)
            return real.array(x, dtype=object, **k)
        if ACTIVE() and dtype is None:
            r = real.array(x, **k)
            return r
        return real.array(x, dtype=dtype, **k) if dtype is not None else real.array(x, **k)

    def asarray(self, x, dtype=None, **k):
        only(k)
        if isinstance(x, SymArr) or (isinstance(x, real.ndarray) and x.dtype == object):
            floats(dtype)
            return x
        if isinstance(x, real.ndarray):
            return x if dtype is None or ACTIVE() and dtype not in INT_DT else real.asarray(x, dtype=dtype)
        return self.array(x, dtype=dtype)

    def asanyarray(self, x, dtype=None, **k):
        return self.asarray(x, dtype)

    def ascontiguousarray(self, x, dtype=None, **k):
        return self.asarray(x, dtype)

    def atleast_1d(self, x):
        if isinstance(x, SymArr):
            return x
        return real.atleast_1d(self.array(x) if isinstance(x, SNum) else x)

    def copy(self, x, **k):
        if isinstance(x, SymArr):
            return x.copy()
        return real.copy(x)

    def _full(self, shape, val, dtype):
        sh = int_shape(shape)
        if sh is None:
            z = zr(val)
            return SymArr(shape_tuple(shape), lambda ix: z)
        if ACTIVE() and not (dtype in INT_DT):
            return obj(sh, val)
        return real.full(sh, val, dtype=dtype)

    def zeros(self, shape, dtype=None, **k):
        return self._full(shape, 0.0, dtype)

    def ones(self, shape, dtype=None, **k):
        return self._full(shape, 1.0, dtype)

    def full(self, shape, val, dtype=None, **k):
        return self._full(shape, val, dtype)

    def empty(self, shape, dtype=None, **k):
        sh = int_shape(shape)
        if sh is None:
            nm = ctx().fresh_name('uninit')
            tup = shape_tuple(shape)
            f = z3.Function(nm, *([z3.IntSort()] * len(tup)), z3.RealSort())
            return SymArr(tup, lambda ix: f(*[A.idx_term(i) for i in ix]))
        if ACTIVE():
            a = real.empty(sh, dtype=object)
            for i in real.ndindex(*sh):
                a[i] = SR(z3.Real(ctx().fresh_name('uninit')))
            return a
        return real.empty(sh, dtype=dtype)

    def zeros_like(self, x, dtype=None, **k):
        return self.zeros(self.shape(x), dtype)

    def ones_like(self, x, dtype=None, **k):
        return self.ones(self.shape(x), dtype)

    def full_like(self, x, v, dtype=None, **k):
        return self.full(self.shape(x), v, dtype)

    def empty_like(self, x, dtype=None, **k):
        return self.empty(self.shape(x), dtype)

    def eye(self, n, m=None, dtype=None, **k):
        if isinstance(n, SI) or isinstance(m, SI):
            raise Unsupported('eye of symbolic size')
        r = real.eye(int(n), m if m is None else int(m))
        return r.astype(object) if ACTIVE() else r

    def identity(self, n, dtype=None):
        return self.eye(n)

    def linspace(self, a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
        if retstep:
            raise Unsupported('linspace retstep')
        if not (is_s(a) or is_s(b) or isinstance(num, SI)):
            return real.linspace(a, b, int(num), endpoint=endpoint)
        if isinstance(a, (SymArr, real.ndarray)) and getattr(a, 'ndim', 0):
            raise Unsupported('linspace on arrays')
        za, zb_ = zr(a), zr(b)
        if isinstance(num, SR):
            raise TypeError('float cannot be interpreted as an integer')
        if isinstance(num, SI):
            if bool(num < 0):
                raise ValueError('Number of samples must be non-negative')
            n = num.z
            div = z3.ToReal(n - 1) if endpoint else z3.ToReal(n)

            def fn(ix):
                i = A.idx_term(ix[0])
                ir = z3.ToReal(i)
                v = za + (zb_ - za) * (ir / div)
                return z3.If(z3.And(div == 0), za, z3.If(z3.And(z3.BoolVal(bool(endpoint)), i == n - 1), zb_, v))
            return SymArr((num,), fn)
        num = int(num)
        if num < 0:
            raise ValueError('Number of samples must be non-negative')
        div = num - 1 if endpoint else num
        out = real.empty(num, dtype=object)
        for i in range(num):
            if endpoint and i == num - 1 and num > 1:
                out[i] = SR(zb_)
            elif i == 0:
                out[i] = SR(za)
            else:
                out[i] = SR(za + (zb_ - za) * z3.RealVal(i) / z3.RealVal(div))
        return out

    def logspace(self, a, b, num=50, endpoint=True, base=10.0, **k):
        if not (is_s(a) or is_s(b) or isinstance(num, SI)):
            return real.logspace(a, b, int(num), endpoint=endpoint, base=base)
        only(k)
        if base != 10.0:
            raise Unsupported('logspace base')
        e = self.linspace(a, b, num, endpoint)
        if isinstance(e, SymArr):
            return A.emap(lambda x: uf('pow10')(x), e)
        return real.array([SR(uf('pow10')(zr(x))) for x in e], dtype=object)

    def arange(self, *a, **k):
        if any(isinstance(x, SI) for x in a):
            lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) > 2:
                raise Unsupported('arange step')
            return SymArr((hi - lo,), lambda ix: z3.ToReal(A.idx_term(A.add(ix[0], A.as_idx(lo)))))
        if scal(*a):
            lo, hi, h = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
            lo, hi, h = zr(lo), zr(hi), zr(h)
            if not A.decide(h > 0):
                raise Unsupported('arange with a step that may be negative')
            if not A.decide(lo < hi):
                return real.array([])
            if getattr(ctx(), 'bounded', False):
                for n in range(1, 4):
                    if A.decide(hi <= lo + n * h):
                        r = real.empty(n, dtype=object)
                        for i in range(n):
                            r[i] = SR(lo + i * h)
                        return r
                raise T.PathEnd('arange longer than the bound')
            n = z3.Function('ARANGE_N', *([z3.RealSort()] * 3), z3.IntSort())(lo, hi, h)
            ctx().add(z3.And(n >= 1, lo + z3.ToReal(n - 1) * h < hi, hi <= lo + z3.ToReal(n) * h))
            return SymArr((n,), lambda ix: lo + z3.ToReal(A.idx_term(ix[0])) * h)
        return real.arange(*a, **k)

    def interp(self, x, xp, fp, *a, **k):
        if isinstance(x, SR) and not symbolic(xp, fp) and not a and not k:
            q = x.z
            if A.decide(q <= zr(xp[0])):
                return SR(zr(fp[0]))
            for j in range(len(xp) - 1):
                if A.decide(q == zr(xp[j + 1])):
                    return SR(zr(fp[j + 1]))
                if A.decide(q < zr(xp[j + 1])):
                    d = (q - zr(xp[j])) / (zr(xp[j + 1]) - zr(xp[j]))
                    ctx().add(z3.And(d > 0, d < 1))
                    return SR(zr(fp[j]) + d * (zr(fp[j + 1]) - zr(fp[j])))
            return SR(zr(fp[len(xp) - 1]))
        return self.__getattr__('interp')(x, xp, fp, *a, **k)

    def ceil(self, x):
        if isinstance(x, SR):
            for n in range(-1, 8):
                if A.decide(x.z <= n):
                    if n == -1:
                        break
                    return n
            raise Unsupported('ceil outside 0..7')
        return self.__getattr__('ceil')(x)

    # -- shape ---------------------------------------------------------------
    def shape(self, x):
        if isinstance(x, SymArr):
            return x.shape
        if symbolic(x):
            return lift(x).shape
        return real.shape(plain(x))

    def size(self, x, axis=None):
        if isinstance(x, SymArr):
            return x.size if axis is None else x.shape[axis]
        return real.size(plain(x), axis)

    def ndim(self, x):
        if isinstance(x, SymArr):
            return x.ndim
        return real.ndim(plain(x))

    def transpose(self, x, axes=None):
        if isinstance(x, SymArr):
            return x.transpose(axes)
        return real.transpose(x, axes)

    def reshape(self, x, shape, order='C', **k):
        only(k)
        if isinstance(x, SymArr):
            return x.reshape(shape, order=order)
        return real.reshape(plain(x), shape, order=order)

    def ravel(self, x, order='C'):
        if isinstance(x, SymArr):
            return x.ravel(order)
        return real.ravel(plain(x), order)

    # -- element-wise ----------------------------------------------------------
    def _el2(self, f, name, a, b, o=(), k={}):
        if o or k:
            if symbolic(a, b, *o, *k.values()) or isinstance(a, SNum) or isinstance(b, SNum):
                raise Unsupported('numpy.%s with options' % name)
            return getattr(real, name)(plain(a), plain(b), *o, **k)
        if symbolic(a, b):
            return A.elementwise(f, a, b)
        if isinstance(a, SNum) and not isinstance(b, real.ndarray) and not isinstance(b, (list, tuple)):
            return SR(f(zr(a), zr(b)))
        return getattr(real, name)(plain(a), plain(b))

    def divide(self, a, b, *o, **k): return self._el2(lambda x, y: x / y, 'divide', a, b, o, k)
    true_divide = divide
    def multiply(self, a, b, *o, **k): return self._el2(lambda x, y: x * y, 'multiply', a, b, o, k)
    def add(self, a, b, *o, **k): return self._el2(lambda x, y: x + y, 'add', a, b, o, k)
    def subtract(self, a, b, *o, **k): return self._el2(lambda x, y: x - y, 'subtract', a, b, o, k)

    def _el1(self, f, name, x):
        if symbolic(x):
            y = lift(x)
            if isinstance(y, SymArr):
                return A.emap(f, y)
            return SR(f(zr(y)))
        if isinstance(x, SNum):
            return SR(f(zr(x)))
        if isinstance(x, (list, tuple)) and scal(x):
            x = self.array(x)
        if isinstance(x, real.ndarray) and x.dtype == object:
            out = real.empty(x.shape, dtype=object)
            for i in real.ndindex(*x.shape):
                v = x[i]
                out[i] = SR(f(zr(v)))
            return out
        return getattr(real, name)(plain(x))

    def fabs(self, x): return self._el1(lambda a: z3.If(a >= 0, a, -a), 'fabs', x)
    def abs(self, x): return self._el1(lambda a: z3.If(a >= 0, a, -a), 'abs', x)
    absolute = abs
    def log10(self, x): return self._el1(lambda a: uf('log10')(a), 'log10', x)
    def log(self, x): return self._el1(lambda a: uf('log')(a), 'log', x)
    def sin(self, x): return self._el1(lambda a: uf('sin')(a), 'sin', x)
    def cos(self, x): return self._el1(lambda a: uf('cos')(a), 'cos', x)
    def exp(self, x): return self._el1(lambda a: uf('exp')(a), 'exp', x)
    def sqrt(self, x): return self._el1(lambda a: uf('sqrt')(a), 'sqrt', x)
    def negative(self, x): return self._el1(lambda a: -a, 'negative', x)
    def square(self, x): return self._el1(lambda a: a * a, 'square', x)

    def _pred(self, x, val, name):
        if symbolic(x):
            return SymBoolArr((lambda ix: z3.BoolVal(val), lift(x).shape_))
        if isinstance(x, SNum):
            return val
        if isinstance(x, (list, tuple)):
            x = self.array(x)
        if isinstance(x, real.ndarray) and x.dtype == object:
            return real.full(x.shape, val)
        return getattr(real, name)(x)

    def isnan(self, x): return self._pred(x, False, 'isnan')
    def isinf(self, x): return self._pred(x, False, 'isinf')
    def isfinite(self, x): return self._pred(x, True, 'isfinite')
    def real_if_close(self, x): return x

    # -- reductions -------------------------------------------------------------
    def max(self, x, axis=None, **k):
        only(k)
        return self._minmax(x, axis, True)
    amax = max

    def min(self, x, axis=None, **k):
        only(k)
        return self._minmax(x, axis, False)
    amin = min

    def _minmax(self, x, axis, mx):
        if symbolic(x):
            y = lift(x)
            if y.ndim == 1 and axis in (None, 0, -1):
                return SR(extremum(y, None, mx)(()))
            if y.ndim == 2 and axis in (0, -2):
                e = extremum(y, 0, mx)
                return SymArr((y.shape_[1],), lambda ix: e(tuple(ix)))
            raise Unsupported('max over axis %r' % (axis,))
        if isinstance(x, (list, tuple)):
            x = self.array(x)
        if isinstance(x, real.ndarray) and x.dtype == object:
            if axis is None:
                return fold_ext(x.reshape(-1), mx)
            if x.ndim == 1:
                return fold_ext(x, mx)
            mv = real.moveaxis(x, axis, 0)
            out = real.empty(mv.shape[1:], dtype=object)
            for i in real.ndindex(*mv.shape[1:]):
                out[i] = fold_ext(mv[(slice(None),) + i], mx)
            return out
        return (real.max if mx else real.min)(x, axis=axis)

    def argmin(self, x, axis=None, **k):
        return self._arg(x, axis, k, False)

    def argmax(self, x, axis=None, **k):
        return self._arg(x, axis, k, True)

    def _arg(self, x, axis, k, mx):
        if symbolic(x):
            y = lift(x)
            if y.ndim != 1 or axis not in (None, 0, -1) or k:
                raise Unsupported('argmin/argmax over an axis')
            return argext(y, mx)
        if scal(x):
            x = self.asarray(x)
            if k or x.ndim != 1 and axis is not None:
                raise Unsupported('argmin/argmax over an axis')
            return argfold(list(x.reshape(-1)), mx)
        return (real.argmax if mx else real.argmin)(plain(x), axis, **k)

    def sum(self, x, axis=None, **k):
        if symbolic(x):
            only(k)
            y = lift(x)
            if y.ndim == 1 and axis in (None, 0, -1):
                return A.sym_sum(y)
            raise Unsupported('sum over axis')
        if isinstance(x, (list, tuple)) and scal(x):
            x = self.array(x)
        return real.sum(x, axis=axis, **k)

    def any(self, x, axis=None, **k):
        only(k)
        return self._anyall(x, axis, real.any, False)

    def all(self, x, axis=None, **k):
        only(k)
        return self._anyall(x, axis, real.all, True)

    def _anyall(self, x, axis, f, isall):
        if isinstance(x, SymBoolArr):
            return x.all() if isall else x.any()
        if isinstance(x, (SB,)):
            return x
        if isinstance(x, (list, tuple)):
            x = real.array(plain(x), dtype=object) if scal(x) else real.array(plain(x))
        if isinstance(x, real.ndarray) and x.dtype == object and axis is None:
            r = SB(z3.BoolVal(isall))
            for v in x.reshape(-1):
                b = v if isinstance(v, (SB, bool, real.bool_)) else (v != 0)
                r = (r & b) if isall else (r | b)
            return r
        if symbolic(x):
            raise Unsupported('any/all')
        return f(x, axis=axis)

    def isscalar(self, x):
        return isinstance(x, (SNum,)) or real.isscalar(x)

    # -- restructuring -----------------------------------------------------------
    def insert(self, arr, pos, val, axis=None):
        if not symbolic(arr, pos, val):
            if scal(arr, val):
                arr = real.asarray(plain(arr), dtype=object)
                if isinstance(val, (list, tuple)):
                    val = self.array(val)
            return real.insert(arr, pos, val, axis)
        a = lift(arr)
        if axis is None:
            if a.ndim != 1:
                raise Unsupported('insert flattened')
            return insert1(a, pos, val)
        if a.ndim == 1 and axis in (0, -1):
            return insert1(a, pos, val)
        if a.ndim == 2 and axis in (0, 1, -1, -2):
            ax = axis % 2
            n = a.shape_[ax]
            p = A.as_idx(pos) if not isinstance(pos, (list, tuple, real.ndarray, SymArr)) else None
            if p is None:
                raise Unsupported('insert at many positions')
            if A.decide(A.lt(p, 0)):
                p = A.add(p, n)
            if not A.decide(z3.And(A.le(0, p), A.le(p, n))):
                raise IndexError('index out of bounds for insert')
            v = lift(val)
            if isinstance(v, SymArr):
                if v.ndim == 1:
                    v = A.broadcast_to(v, (a.shape_[1 - ax],))
                    g = v.snap()
                else:
                    raise Unsupported('insert 2-d value')
            else:
                z = zr(v)
                g = lambda ix: z
            f = a.snap()

            def fn(ix):
                j, o = ix[ax], ix[1 - ax]
                mk = lambda q: (q, o) if ax == 0 else (o, q)
                return A._zif(A.lt(j, p), f(mk(j)), A._zif(A.eqi(j, p), g((o,)), f(mk(A.sub(j, 1)))))
            shp = list(a.shape_)
            shp[ax] = A.add(n, 1)
            return SymArr(shp, fn)
        raise Unsupported('insert')

    def delete(self, arr, pos, axis=None):
        if not symbolic(arr, pos):
            return real.delete(plain(arr), plain(pos), axis)
        a = lift(arr)
        if axis is None:
            if a.ndim != 1:
                raise Unsupported('delete flattened')
            ax = 0
        else:
            ax = axis % a.ndim
        n = a.shape_[ax]
        f = a.snap()
        if isinstance(pos, slice):
            lo, ln, st = A.slice_bounds(pos, n)
            if st != 1:
                raise Unsupported('delete stride')

            def fn(ix):
                j = ix[ax]
                mk = lambda q: tuple(q if d == ax else i for d, i in enumerate(ix))
                return A._zif(A.lt(j, lo), f(mk(j)), f(mk(A.add(j, ln))))
            shp = list(a.shape_)
            shp[ax] = A.sub(n, ln)
            return SymArr(shp, fn)
        if isinstance(pos, (list, tuple, real.ndarray, BvList)):
            ps = [A.norm_index(A.as_idx(q), n, ax) for q in list(pos)]
            # distinct, sorted positions (decided under the path condition)
            uniq = []
            for q in ps:
                if not any(A.decide(A.eqi(q, r)) for r in uniq):
                    uniq.append(q)
            srt = []
            for q in uniq:
                i = 0
                while i < len(srt) and A.decide(A.lt(srt[i], q)):
                    i += 1
                srt.insert(i, q)

            def fn(ix):
                mk = lambda q: tuple(q if d == ax else i for d, i in enumerate(ix))
                j = ix[ax]
                # new index j corresponds to old j + #(deleted <= ...)
                cur = j
                for q in srt:
                    nxt = A.add(cur, 1)
                    cc = A.le(q, cur)
                    c = z3.simplify(cc)
                    cur = nxt if z3.is_true(c) else cur if z3.is_false(c) else z3.If(c, A.idx_term(nxt), A.idx_term(cur))
                return f(mk(cur))
            shp = list(a.shape_)
            shp[ax] = A.sub(n, len(srt))
            return SymArr(shp, fn)
        q = A.norm_index(A.as_idx(pos), n, ax)

        def fn(ix):
            j = ix[ax]
            mk = lambda r: tuple(r if d == ax else i for d, i in enumerate(ix))
            return A._zif(A.lt(j, q), f(mk(j)), f(mk(A.add(j, 1))))
        shp = list(a.shape_)
        shp[ax] = A.sub(n, 1)
        return SymArr(shp, fn)

    def append(self, a, b, axis=None):
        if not symbolic(a, b):
            if scal(a, b):
                return real.append(real.asarray(plain(a), dtype=object), self.array(b), axis)
            return real.append(plain(a), plain(b), axis)
        if axis is None:
            a, b = lift(a), lift(b)
            a = a.ravel() if isinstance(a, SymArr) else A.make_array([a])
            b = b.ravel() if isinstance(b, SymArr) else A.make_array([b])
            return cat([a, b], 0)
        return self.concatenate((a, b), axis)

    def concatenate(self, xs, axis=0, **k):
        only(k)
        xs = list(xs)
        if not symbolic(*xs):
            xs = [real.asarray(plain(x), dtype=object) if scal(x) else plain(x) for x in xs]
            return real.concatenate(xs, axis)
        if not isinstance(axis, int):
            raise Unsupported('concatenate axis')
        return cat([lift(x) for x in xs], axis)

    def hstack(self, xs, **k):
        only(k)
        xs = list(xs)
        if not symbolic(*xs):
            xs = [real.asarray(plain(x), dtype=object) if scal(x) else plain(x) for x in xs]
            return real.hstack(xs)
        ls = [one_d(lift(x)) for x in xs]
        return cat(ls, 0 if ls[0].ndim == 1 else 1)

    @property
    def r_(self):
        shim = self

        class R:
            def __getitem__(self, xs):
                xs = xs if isinstance(xs, tuple) else (xs,)
                if any(isinstance(x, (slice, str)) for x in xs):
                    if symbolic(*xs):
                        raise Unsupported('numpy.r_ with slices on symbolic data')
                    return real.r_[xs]
                if symbolic(*xs):
                    ls = [one_d(lift(x)) for x in xs]
                    if any(x.ndim != 1 for x in ls):
                        raise Unsupported('numpy.r_ on matrices')
                    return ls[0].copy() if len(ls) == 1 else cat(ls, 0)
                xs = tuple(real.asarray(plain(x), dtype=object) if scal(x) else plain(x) for x in xs)
                return real.r_[xs]
        return R()

    def vstack(self, xs, **k):
        only(k)
        if isinstance(xs, BvList) and xs.sym is not None:
            xs = xs.sym
        if isinstance(xs, SymList) and not isinstance(xs.n, int):
            blocks = []
            for part in getattr(xs, 'parts', None) or (xs,):
                if isinstance(part, (list, tuple)) and not (isinstance(part, BvList) and part.sym is not None):
                    if len(part) == 0:
                        continue
                    b = A.make_array([lift(e) for e in part])
                else:
                    b = A.make_array(part)
                if b.ndim != 2:
                    raise Unsupported('vstack of a symbolic list of %d-d items' % (b.ndim - 1))
                blocks.append(b)
            return cat(blocks, 0) if len(blocks) > 1 else blocks[0]
        xs = list(xs)
        if not symbolic(*xs):
            xs = [real.asarray(plain(x), dtype=object) if scal(x) else plain(x) for x in xs]
            return real.vstack(xs)
        ls = []
        for x in xs:
            x = one_d(lift(x))
            if x.ndim == 1:
                f = x.snap()
                x = SymArr((1, x.shape_[0]), lambda ix, f=f: f((ix[1],)))
            ls.append(x)
        return cat(ls, 0)

    row_stack = vstack

    def column_stack(self, xs, **k):
        only(k)
        xs = list(xs)
        if not symbolic(*xs):
            xs = [real.asarray(plain(x), dtype=object) if scal(x) else plain(x) for x in xs]
            return real.column_stack(xs)
        ls = []
        for x in xs:
            x = one_d(lift(x))
            if x.ndim == 1:
                f = x.snap()
                x = SymArr((x.shape_[0], 1), lambda ix, f=f: f((ix[0],)))
            ls.append(x)
        return cat(ls, 1)

    def dot(self, a, b):
        if symbolic(a, b):
            a, b = lift(a), lift(b)
            if a.ndim == 1 and b.ndim == 1:
                return A.sym_sum(a * b)
            raise Unsupported('dot')
        return real.dot(plain(a), plain(b))

    def array_split(self, a, idx, axis=0):
        if symbolic(a, idx):
            raise Unsupported('array_split')
        return real.array_split(a, idx, axis)

    def diff(self, a, n=1, axis=-1, **k):
        if symbolic(a):
            only(k)
            a = lift(a)
            if n != 1 or a.ndim > 2 or axis not in (0, 1, -1, -2):
                raise Unsupported('diff')
            if a.ndim == 2 and axis in (1, -1):
                return a[:, 1:] - a[:, :-1]
            return a[1:] - a[:-1]
        return real.diff(plain(a), n, axis, **k)

    def where(self, c, *a):
        if isinstance(c, SB) and len(a) == 2:
            return ite(c, a[0], a[1])
        if symbolic(c, *a):
            raise Unsupported('where')
        if isinstance(c, real.ndarray) and c.dtype == object and len(a) == 2:
            x, y = real.broadcast_to(a[0], c.shape), real.broadcast_to(a[1], c.shape)
            out = real.empty(c.shape, dtype=object)
            for i in real.ndindex(*c.shape):
                out[i] = ite(c[i], x[i], y[i]) if isinstance(c[i], SB) else (x[i] if c[i] else y[i])
            return out
        return real.where(c, *a)

    def diag(self, v, k=0):
        if symbolic(v):
            v = lift(v)
            if v.ndim != 1 or not isinstance(k, int):
                raise Unsupported('diag')
            n = A.add(v.shape_[0], abs(k))
            f = v.snap()

            def at(ix):
                i, j = A.idx_term(ix[0]), A.idx_term(ix[1])
                return z3.If(j - i == k, f((i if k >= 0 else j,)), z3.RealVal(0))
            return SymArr((n, n), at)
        if scal(v):
            v = real.asarray(plain(v), dtype=object)
            if v.ndim == 1:
                n = len(v) + abs(k)
                r = obj((n, n), 0.0)
                for i, x in enumerate(v):
                    r[(i, i + k) if k >= 0 else (i - k, i)] = x
                return r
        return real.diag(v, k)

    def searchsorted(self, a, v, side='left', **k):
        if k and (symbolic(a, v) or scal(a, v)):
            raise Unsupported('searchsorted with a sorter')
        if isinstance(a, SymArr) and isinstance(v, SNum):
            # a sorted (numpy's precondition): the number of entries below (side right: not above) v
            f, n, z = a.snap(), A.idx_term(a.shape_[0]), zr(v)
            j = z3.Function('SSORT' + side, A_ARR, z3.IntSort(), z3.RealSort(), z3.IntSort())(T.zlambda(lambda K: f((K,))), n, z)
            c = ctx()
            memo = c.__dict__.setdefault('ssort', {})
            if j.get_id() in memo:
                return SI(memo[j.get_id()][1])
            c.add(z3.And(j >= 0, j <= n))
            below = (lambda e: e <= z) if side == 'right' else (lambda e: e < z)
            c.forall(lambda i: z3.Implies(z3.And(i >= 0, i < n), below(f((i,))) == (i < j)))
            c.index_terms += [j, z3.simplify(j - 1)]
            seen = set()
            for t in list(c.index_terms):       # lemma (discharged here): the position is a term already in use
                t = z3.simplify(t)
                if t.sexpr() in seen or len(seen) > 12 or 'SSORT' in t.sexpr():
                    continue
                seen.add(t.sexpr())
                if c.entails(j == t, linear=True):
                    c.add(j == t)
                    memo[j.get_id()] = (j, t)
                    return SI(t)
            memo[j.get_id()] = (j, j)
            return SI(j)
        if symbolic(a, v) or scal(a, v):
            if symbolic(a) or not isinstance(v, SNum):
                raise Unsupported('searchsorted')
            n = 0
            for x in a:
                if bool((x < v) if side == 'left' else (x <= v)):
                    n += 1
                else:
                    break
            return n
        return real.searchsorted(a, v, side, **k)

    @property
    def s_(self):
        return real.s_


def is_s(x):
    return isinstance(x, (SNum, SymArr)) or (isinstance(x, real.ndarray) and x.dtype == object)


def one_d(x):
    if isinstance(x, SymArr):
        return x
    return A.make_array([x])


def insert1(a, pos, val):
    n = a.shape_[0]
    if isinstance(pos, (list, tuple, real.ndarray, SymArr)):
        raise Unsupported('insert at many positions')
    p = A.as_idx(pos)
    if A.decide(A.lt(p, 0)):
        p = A.add(p, n)
    if not A.decide(z3.And(A.le(0, p), A.le(p, n))):
        raise IndexError('index out of bounds for insert')
    v = lift(val)
    f = a.snap()
    if isinstance(v, SymArr):
        if v.ndim != 1:
            raise Unsupported('insert 2-d value in 1-d')
        g, m = v.snap(), v.shape_[0]
    else:
        z = zr(v)
        g, m = (lambda ix: z), 1
    e = A.add(p, m)

    def fn(ix):
        j = ix[0]
        return A._zif(A.lt(j, p), f((j,)), A._zif(A.lt(j, e), g((A.sub(j, p),)), f((A.sub(j, m),))))
    return SymArr((A.add(n, m),), fn)


def cat(ls, axis):
    nd = ls[0].ndim
    for x in ls:
        if not isinstance(x, SymArr) or x.ndim != nd:
            raise ValueError('all the input array dimensions must match')
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    if not -nd <= axis < nd:
        raise IndexError('axis out of bounds')
    ax = axis % nd
    for x in ls[1:]:
        for d in range(nd):
            if d != ax and not A.same_dim(x.shape_[d], ls[0].shape_[d]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match')
    fs = [x.snap() for x in ls]
    offs = [0]
    for x in ls:
        offs.append(A.add(offs[-1], x.shape_[ax]))

    def fn(ix):
        j = ix[ax]

        def at(q):
            jj = A.sub(j, offs[q])
            return fs[q](tuple(jj if d == ax else i for d, i in enumerate(ix)))
        alt = []
        for q in range(len(fs)):
            c = z3.simplify(A.lt(j, offs[q + 1])) if q < len(fs) - 1 else z3.BoolVal(True)
            if not z3.is_false(c):
                alt.append((c, q))
            if z3.is_true(c):
                break
        r = at(alt[-1][1])
        for c, q in reversed(alt[:-1]):
            r = z3.If(c, at(q), r)
        return r
    shp = list(ls[0].shape_)
    shp[ax] = offs[-1]
    return SymArr(shp, fn)


def fold_ext(xs, mx):
    xs = list(xs)
    if not xs:
        raise ValueError('zero-size array to reduction operation')
    r = xs[0]
    for x in xs[1:]:
        if all(isinstance(q, (SI, int)) and not isinstance(q, bool) for q in (x, r)) and (isinstance(x, SI) or isinstance(r, SI)):
            a, b = zi(x), zi(r)         # indices: resolved where the path decides, else the path splits
            gt = (a > b) if mx else (a < b)
            if ctx().entails(gt, linear=True):
                r = x
            elif ctx().entails(z3.Not(gt), linear=True):
                pass
            else:
                r = x if A.decide(gt) else r
            continue
        r = ite((zr(x) > zr(r)) if mx else (zr(x) < zr(r)), x, r)
    return r


_EXT = {}


def extremum(y, axis, mx):
    """assumed contract of numpy.max/min: an upper (lower) bound that is attained"""
    c = ctx()
    f = y.snap()
    n = y.shape_[0]
    if not A.decide(A.lt(0, n)):
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    K = z3.Int('K!ext')
    if axis is None:
        lam = T.zlambda(lambda K: f((K,)))
        F = z3.Function('MAX' if mx else 'MIN', z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.RealSort())
        m = F(lam, A.idx_term(n))
        c.forall(lambda i: z3.Implies(z3.And(i >= 0, i < A.idx_term(n)), (f((i,)) <= m) if mx else (f((i,)) >= m)))
        wit = c.skolem_int('wit')
        c.add(z3.And(wit >= 0, wit < A.idx_term(n), f((wit,)) == m))
        return lambda ix: m
    F = z3.Function('MAX' if mx else 'MIN', z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.IntSort(), z3.RealSort())

    def g(ix):
        lam = T.zlambda(lambda K: f((K, ix[0])))
        return F(lam, A.idx_term(n))
    return g


def argfold(xs, mx):
    if not xs:
        raise ValueError('attempt to get argmin of an empty sequence')
    best = 0
    for i in range(1, len(xs)):
        a, b = zr(xs[i]), zr(xs[best])
        if ctx().branch((a > b) if mx else (a < b)):
            best = i
    return best


def argext(y, mx):
    c = ctx()
    f, n = y.snap(), A.idx_term(y.shape_[0])
    if not A.decide(n > 0):
        raise ValueError('attempt to get argmin of an empty sequence')
    i0 = c.skolem_int('argext')
    c.add(z3.And(i0 >= 0, i0 < n))
    v = f((i0,))
    c.forall(lambda i: z3.Implies(z3.And(i >= 0, i < n), (f((i,)) <= v) if mx else (f((i,)) >= v)))
    c.forall(lambda i: z3.Implies(z3.And(i >= 0, i < i0), (f((i,)) < v) if mx else (f((i,)) > v)))
    return SI(i0)


class LinalgShim:
    def norm(self, x, ord=None, **k):
        if k and (symbolic(x) or scal(x)):
            raise Unsupported('norm over an axis')
        if symbolic(x):
            y = lift(x)
            if y.ndim != 1 or ord not in (None, 2):
                raise Unsupported('norm')
            return SR(uf('sqrt')(A.sym_sum(y * y).z))
        if scal(x):
            x = [v for v in real.asarray(plain(x), dtype=object).reshape(-1)]
            if ord is None or ord == 2:
                s = z3.RealVal(0)
                for v in x:
                    s = s + zr(v) * zr(v)
                r = uf('sqrt')(s)
                if getattr(T.CTX, 'opaque_norm', False):
                    r = z3.Function('NORM%d' % len(x), *([z3.RealSort()] * (len(x) + 1)))(*[zr(v) for v in x]) if x else z3.RealVal(0)
                if T.CTX is not None:           # lemma: 0 <= |x_i| <= norm(x)
                    ctx().add(r >= 0)
                    for v in x:
                        ctx().add(z3.And(zr(v) <= r, -zr(v) <= r))
                return SR(r)
            if ord == real.inf:
                return fold_ext([abs(v) for v in x], True)
            if ord == 1:
                r = SR(z3.RealVal(0))
                for v in x:
                    r = r + abs(v)
                return r
            raise Unsupported('norm order')
        return real.linalg.norm(x, ord, **k)

    def __getattr__(self, name):
        v = getattr(real.linalg, name)
        if callable(v):
            def w(*a, **k):
                h = getattr(T.CTX, 'hooks', {}).get('linalg_' + name) if T.CTX is not None else None
                if h is not None:
                    return h(*a, **k)
                if symbolic(*a) or scal(*a):
                    raise Unsupported('numpy.linalg.' + name)
                return v(*a, **k)
            return w
        return v


SHIM = Shim()
