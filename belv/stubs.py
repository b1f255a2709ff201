"""Assumed contracts on dependencies (scipy) for the symbolic processes.

simpson    a function of the samples and the grid only
interp1d   linear: for t_0 <= q <= t_{n-1} the blend of two neighbouring samples that bracket q; ValueError outside
solve_ivp  a grid from t0 to tf (or t_eval) and states that start at y0 and otherwise are an arbitrary function of
           the span, the start, the options and the right-hand side (as a function, compared at a generic point)
solve_bvp, root, fsolve, minimize: recorded and replaced by the contract under test
"""
import numpy as np
import z3
from . import terms as T
from .terms import SR, SI, SNum, Unsupported, ctx, zr, zi, mk_int
from . import symarr as A
from .symarr import SymArr, lift, deep_sym, deep_scalar, idx_term
from .npshim import obj

ARR = z3.ArraySort(z3.IntSort(), z3.RealSort())
SIMP = z3.Function('SIMPSON', ARR, ARR, z3.IntSort(), z3.RealSort())
BRACKET = z3.Function('BRACKET', ARR, z3.IntSort(), z3.RealSort(), z3.IntSort())


def active(*xs):
    return T.CTX is not None and any(deep_sym(x) or deep_scalar(x) for x in xs)


def simpson(y, x=None, dx=1.0, axis=-1, **k):
    """numerical quadrature: a function of the samples and the grid only"""
    if not active(y, x):
        return _real['simpson'](y, x=x, dx=dx, axis=axis, **k)
    if k or x is None:
        raise Unsupported('options of simpson')
    if axis in (0, -2) and (lift(y) if deep_sym(y) else np.asarray(y)).ndim == 2:
        return simpson((lift(y) if deep_sym(y) else np.asarray(y)).T, x)
    if axis not in (-1, (lift(y) if deep_sym(y) else np.asarray(y)).ndim - 1):
        raise Unsupported('axis of simpson')
    if deep_sym(y) or deep_sym(x):
        y, x = lift(y), lift(x)
        sx, n = x.snap(), A.idx_term(x.shape_[0])
        if not A.decide(A.eqi(y.shape_[-1], x.shape_[0])):
            raise ValueError('If given, length of x must be the same as y')
        gx = T.zlambda(lambda K: sx((K,)))
        sy = y.snap()
        if y.ndim == 2:
            return SymArr((y.shape_[0],), lambda ix: SIMP(T.zlambda(lambda K: sy((ix[0], K))), gx, n))
        return SR(SIMP(T.zlambda(lambda K: sy((K,))), gx, n))
    y = np.asarray(y)
    if y.ndim == 2:
        r = np.empty(y.shape[0], dtype=object)
        for i in range(len(r)):
            r[i] = simpson(y[i], x)
        return r
    ys, xs = [zr(v) for v in y.reshape(-1)], [zr(v) for v in np.asarray(x).reshape(-1)]
    if len(ys) != len(xs):
        raise ValueError('If given, length of x must be the same as y')
    n = len(ys)
    return SR(z3.Function('SIMPSON%d' % n, *([z3.RealSort()] * (2 * n + 1)))(*ys, *xs))


class interp1d:
    def __new__(cls, x, y, kind='linear', *a, **k):
        if not active(x, y):
            return _real['interp1d'](x, y, kind, *a, **k)
        o = object.__new__(cls)
        if kind != 'linear' or a or k:
            raise Unsupported('interpolation kind %r' % (kind,))
        o.symb = deep_sym(x) or deep_sym(y)
        if o.symb:
            x, y = lift(x), lift(y)
            if y.ndim != 1 or x.ndim != 1:
                raise Unsupported('interp1d of matrices')
            if not A.decide(A.eqi(x.shape_[0], y.shape_[0])):
                raise ValueError('x and y arrays must be equal in length along interpolation axis.')
            if not ctx().entails(x.snap()((0,)) <= x.snap()((A.sub(x.shape_[0], 1),))) and \
                    A.decide(x.snap()((A.sub(x.shape_[0], 1),)) < x.snap()((0,))):
                ctx().reversed_ok = True
                x, y = x[::-1], y[::-1]         # the samples are sorted first
            o.x, o.y = x.copy(), y.copy()
        else:
            o.x, o.y = np.array(x, dtype=object), np.array(y, dtype=object)
            if o.x.ndim != 1 or o.y.ndim != 1:
                raise Unsupported('interp1d of matrices')
            if len(o.x) != len(o.y):
                raise ValueError('x and y arrays must be equal in length along interpolation axis.')
            if len(o.x) > 1 and A.decide(zr(o.x[-1]) < zr(o.x[0])):
                o.x, o.y = o.x[::-1], o.y[::-1]
        return o

    def bv_subst(self, f):
        o = object.__new__(interp1d)
        o.symb, o.x, o.y = self.symb, f(self.x), f(self.y)
        return o

    def __call__(self, q):
        if isinstance(q, np.ndarray) and q.ndim == 0:
            q = q.item()
        if isinstance(q, SymArr) and q.ndim == 0:
            q = SR(q.at())
        if isinstance(q, (np.ndarray, list)):
            return obj_list([self(v) for v in q])
        if isinstance(q, SymArr):
            if q.ndim != 1:
                raise Unsupported('interp1d at a matrix')
            f = q.snap()
            c = ctx()
            k = z3.Int(c.fresh_name('iq'))
            self._range(f((k,)), z3.And(k >= 0, k < idx_term(q.shape_[0])), [k])
            return SymArr(q.shape_, lambda ix: self._at(f(ix)))
        z = zr(q)
        if not self.symb:
            x, y = self.x, self.y
            if len(x) < 2:
                raise Unsupported('interpolation in a single node')
            if A.decide(z3.Or(z < zr(x[0]), z > zr(x[-1]))):
                raise ValueError('A value in x_new is outside the interpolation range.')
            j = 0
            while j < len(x) - 2 and not A.decide(z <= zr(x[j + 1])):
                j += 1
            return SR(blend(z, zr(x[j]), zr(x[j + 1]), zr(y[j]), zr(y[j + 1])))
        self._range(z, z3.BoolVal(True), [])
        r = self._at(z)
        f, g, n = self.x.snap(), self.y.snap(), idx_term(self.x.shape_[0])
        zs = z3.simplify(z)
        for i in [v for a in index_args(z) for v in (a, z3.simplify(n - 1 - a))]:     # lemma (discharged here): at node i the interpolant is sample i
            if zs.eq(z3.simplify(f((i,)))):
                if ctx().entails(z3.And(i >= 0, i < n, r == g((i,))), [i, z3.simplify(n - 1 - i), z3.IntVal(0), z3.simplify(n - 1)]):
                    return SR(g((i,)))
        return SR(r)

    def _range(self, z, dom, more):
        n = self.x.shape_[0]
        if not A.decide(A.le(2, n)):
            raise Unsupported('interpolation in a single node')
        f = self.x.snap()
        inside = z3.And(z >= f((0,)), z <= f((A.sub(n, 1),)))
        more = list(more) + [t for t in index_args(z)] + [z3.IntVal(0), z3.simplify(idx_term(n) - 1)]
        if ctx().entails(z3.Implies(dom, inside), more):
            return
        if not A.decide(z3.Implies(dom, inside)):
            raise ValueError('A value in x_new is outside the interpolation range.')

    def _at(self, z):
        f, g = self.x.snap(), self.y.snap()
        j = BRACKET(T.zlambda(lambda K: f((K,))), idx_term(self.x.shape_[0]), z)
        return blend(z, f((j,)), f((j + 1,)), g((j,)), g((j + 1,)))


def index_args(z):
    out = []
    for e in T._walk([z]):
        if z3.is_app(e):
            out += [c for c in e.children() if c.sort() == z3.IntSort() and not z3.is_int_value(c) and not T.has_var(c)]
    return out[:6]


def blend(q, a, b, ya, yb):
    # equal to ya + (q-a)/(b-a)*(yb-ya); the ends are spelled out so that no division is needed there
    return z3.If(q == a, ya, z3.If(q == b, yb, ya + (q - a) / (b - a) * (yb - ya)))


def obj_list(xs):
    r = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        r[i] = x
    return r


class Bunch(dict):
    __getattr__ = dict.__getitem__


IVP_LOG = []
PT = z3.Real('PROBE_t')
PF = z3.Function('PROBE_y', z3.IntSort(), z3.RealSort())


def opts_key(kw):
    return repr(sorted((k, v) for k, v in kw.items() if not active(v)))


def solve_ivp(fun, t_span, y0, method='RK45', t_eval=None, **kw):
    if T.CTX is None or not (active(*t_span) or active(y0) or active(t_eval)):
        return _real['solve_ivp'](fun, t_span, y0, method=method, t_eval=t_eval, **kw)
    c = ctx()
    t0, tf = zr(t_span[0]), zr(t_span[1])
    if kw.get('args') is not None:
        fun = (lambda f, a: lambda t, y: f(t, y, *a))(fun, tuple(kw['args']))
    kw.pop('args', None)
    key = '%s|%s' % (method, opts_key(kw))
    y0 = lift(y0) if deep_sym(y0) else np.asarray(y0)
    extra = [zr(v) for k, v in sorted(kw.items()) if isinstance(v, SNum)]
    if isinstance(y0, SymArr):
        n = y0.shape_[0]
        g0 = y0.snap()
        r = lift(fun(SR(PT), SymArr((n,), lambda ix: PF(idx_term(ix[0])))))
        if not isinstance(r, SymArr) or r.ndim != 1 or not A.decide(A.eqi(r.shape_[0], n)):
            raise ValueError('dynamics of the wrong length')
        gr = r.snap()
        ks = [t0, tf, T.zlambda(lambda K: g0((K,))), T.zlambda(lambda K: gr((K,)))] + extra
        sig = [k.sort() for k in ks]
        rec = dict(t0=t_span[0], tf=t_span[1], y0=y0, rhs=r, method=method, t_eval=t_eval, kw=kw)
        if t_eval is None:
            M = z3.Function('FLOWN' + key, *sig, z3.IntSort())(*ks)
            c.add(M >= 2)
            TF = z3.Function('FLOWT' + key, *sig, z3.IntSort(), z3.RealSort())
            ft = lambda ix: z3.If(idx_term(ix[0]) == 0, t0, z3.If(idx_term(ix[0]) == M - 1, tf, TF(*ks, idx_term(ix[0]))))
            from .world import order_fact
            order_fact(c, ft, M, down=tf < t0)
            t = SymArr((M,), ft)
        else:
            t = lift(t_eval).copy()
            M = idx_term(t.shape_[0])
            tl = t.snap()
            ks = ks + [T.zlambda(lambda K: tl((K,)))]
            sig = [k.sort() for k in ks]
        YF = z3.Function('FLOWY' + key, *sig, z3.IntSort(), z3.IntSort(), z3.RealSort())
        fy = lambda ix: z3.If(idx_term(ix[1]) == 0, g0((ix[0],)), YF(*ks, idx_term(ix[1]), idx_term(ix[0])))
        res = Bunch(t=t, y=SymArr((n, M), fy), success=True, status=0, message='')
    else:
        n = len(y0)
        pr = obj_list([SR(z3.Real('PROBE_y%d' % i)) for i in range(n)])
        r = np.asarray(fun(SR(PT), pr)).reshape(-1)
        if len(r) != n:
            raise ValueError('dynamics of the wrong length')
        ks = [t0, tf] + [zr(v) for v in y0] + [zr(v) for v in r] + extra
        key += '|%d' % n
        if t_eval is None:
            kk = (key, tuple(k.sexpr() for k in ks)) if not getattr(c, 'flow_uniform', False) else None
            memo = c.__dict__.setdefault('flow_sizes', {})
            if kk not in memo:
                memo[kk] = 2 + c.choose(getattr(c, 'flow_max', 2))
            M = memo[kk]
            mk = lambda nm: z3.Function('%s%s' % (nm, key), *[k.sort() for k in ks], z3.RealSort())(*ks)
            t = obj_list([SR(t0)] + [SR(mk('FLOWT%d/%d' % (i, M))) for i in range(1, M - 1)] + [SR(tf)])
            for i in range(M - 1):
                c.add(z3.If(tf < t0, t[i + 1].z < t[i].z, z3.Implies(t0 < tf, t[i].z < t[i + 1].z)))
        else:
            t = np.array(t_eval, dtype=object)
            M = len(t)
            ks = ks + [zr(v) for v in t]
            mk = lambda nm: z3.Function('%s%s' % (nm, key), *[k.sort() for k in ks], z3.RealSort())(*ks)
        y = np.empty((n, M), dtype=object)
        for i in range(n):
            y[i, 0] = SR(zr(y0[i]))
            for j in range(1, M):
                y[i, j] = SR(mk('FLOWY%d,%d/%d' % (i, j, M)))
        rec = dict(t0=t_span[0], tf=t_span[1], y0=y0, rhs=r, probe=pr, method=method, t_eval=t_eval, kw=kw)
        res = Bunch(t=t, y=y, success=True, status=0, message='')
    rec['result'] = res
    c.__dict__.setdefault('ivp_log', []).append(rec)
    return res


HOOKS = {}      # name -> replacement used by a contract (recorders / havoc for optimisers)


def hooked(name):
    def f(*a, **k):
        h = getattr(T.CTX, 'hooks', {}).get(name) if T.CTX is not None else None
        if h is None:
            return _real[name](*a, **k)
        return h(*a, **k)
    f.__name__ = name
    return f


_real = {}


def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not active(a, b, abs_tol):
        return _real['isclose'](a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    x, y = zr(a), zr(b)
    ab = lambda v: z3.If(v < 0, -v, v)
    return T.SB(z3.Or(ab(x - y) <= zr(rel_tol) * ab(x), ab(x - y) <= zr(rel_tol) * ab(y), ab(x - y) <= zr(abs_tol)))


def install():
    import math
    _real['isclose'] = math.isclose
    math.isclose = isclose
    import scipy.integrate, scipy.interpolate, scipy.optimize
    _real['simpson'] = scipy.integrate.simpson
    scipy.integrate.simpson = simpson
    for n in ('simps',):
        if hasattr(scipy.integrate, n):
            setattr(scipy.integrate, n, simpson)
    _real['interp1d'] = scipy.interpolate.interp1d
    scipy.interpolate.interp1d = interp1d
    _real['solve_ivp'] = scipy.integrate.solve_ivp
    scipy.integrate.solve_ivp = solve_ivp
    _real['solve_bvp'] = scipy.integrate.solve_bvp
    scipy.integrate.solve_bvp = hooked('solve_bvp')
    for n in ('root', 'fsolve', 'minimize'):
        _real[n] = getattr(scipy.optimize, n)
        setattr(scipy.optimize, n, hooked(n))
    import scipy.optimize._slsqp_py as sl
    if hasattr(sl, 'approx_jacobian'):
        _real['approx_jacobian'] = sl.approx_jacobian
        sl.approx_jacobian = hooked('approx_jacobian')
