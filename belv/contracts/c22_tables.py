"""C22: spline tables reproduce their data smoothly and differentiate consistently."""
import itertools, math
import numpy as np
import sympy
from belv.world import contract, Missing, Discard
from belv.contracts.common import SP

SF = 'beluga.symbolic.special_functions'
TB = 'beluga.symbolic.special_functions.tables'
LC = 'beluga.numeric.compilation.LocalCompiler'
FT = ['TableSpline1D.__init__', 'TableSpline1D.form_eval_function', 'TableSpline1D.__call__']
FS = ['SymTable.__new__', 'SymTableMeta.fdiff', 'SymTableGenerator.__call__', 'CustomFunction.__new__', 'CustomFunctionMeta.fdiff',
      'CustomFunctionGenerator.__call__', 'TableStruct.__init__', 'FunctionStruct.__init__', 'LocalCompiler.lambdify']
A = ['numpy.linalg.solve returns a solution of the system it is given']


def spline(w, lo, hi):
    """a table of any data on any increasing arguments, numpy.linalg.solve by its contract"""
    T1 = w.get(TB, 'TableSpline1D')
    N = w.dim('N', lo, hi)
    if w.symbolic:
        import belv.terms as T
        from belv.terms import zr
        import z3

        def solve(M, u):
            if w.mode == 'sym':
                return banded(w, M, u)
            z = w.arr('z', len(u))
            for i in range(len(u)):
                e = z3.RealVal(0)
                for j in range(len(u)):
                    if not (isinstance(M[i, j], (int, float)) and M[i, j] == 0):
                        e = e + zr(M[i, j]) * zr(z[j])
                T.CTX.add(e == zr(u[i]))
            return z
        T.CTX.hooks = dict(linalg_solve=solve)
    x = w.times('x', N, ordered=True)
    y = w.arr('y', N)
    return T1('tab', y, x), x, y, N


def banded(w, M, u):
    """numpy.linalg.solve on a tridiagonal matrix of any size: checks that M is zero outside the band, then
    states row i of M z = u (at most three terms) for every i"""
    import belv.terms as T
    from belv import symarr as S
    import z3
    c = T.CTX
    n = S.idx_term(u.shape_[0])
    m, r = M.snap(), u.snap()
    i, j = c.skolem_int('row'), c.skolem_int('col')
    if not c.entails(z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n, z3.Or(j > i + 1, j < i - 1)), m((i, j)) == 0)):
        raise T.Unsupported('linear system that is not tridiagonal')
    z = w.arr('z', u.shape_[0])
    g = z.snap()

    def row(k):
        s = m((k, k)) * g((k,)) + z3.If(k >= 1, m((k, k - 1)) * g((k - 1,)), z3.RealVal(0)) \
            + z3.If(k + 1 < n, m((k, k + 1)) * g((k + 1,)), z3.RealVal(0))
        return z3.Implies(z3.And(k >= 0, k < n), s == r((k,)))
    c.forall(row)
    return z


def on_interval(w, t, x, N):
    """derivatives 0..4 of the table at a point of some interval, with the interval's ends"""
    i = w.int_in('i', 0, N - 2)
    w.mention(i - 1, i, i + 1, i + 2, N - 1, N - 2)
    f = [t.form_eval_function(k) for k in range(6)]
    return f, i


@contract('C22', 'sym bsym conc jit', funcs=FT, trials=60, budget=60, assumes=A, bound='3..5 tabulated points (conc up to 5)')
def values_at_every_tabulated_argument(w):
    t, x, y, N = spline(w, 3, 5)
    for i in ([w.int_in('i', 0, N - 1)] if w.symbolic else range(N)):
        w.mention(i - 1, i, i + 1, N - 1, N - 2)
        w.ensure_eq('value at tabulated argument', t(x[i]), y[i])
        w.ensure_eq('order 0 is the table', t.form_eval_function(0)(x[i]), y[i])


@contract('C22', 'sym bsym', funcs=FT, budget=90, assumes=A, bound='3..4 tabulated points')
def derivatives_belong_to_the_table(w):
    t, x, y, N = spline(w, 3, 4)
    w.attr(t, 'form_eval_function')
    f, i = on_interval(w, t, x, N)
    a = w.real('a')
    h = w.real('h')
    w.assume((a >= x[i]) & (a < x[i + 1]))
    w.assume((a + h >= x[i]) & (a + h < x[i + 1]))
    v = [f[k](a) for k in range(6)]
    w.ensure_eq('f on the interval', f[0](a + h), v[0] + v[1] * h + v[2] * h * h / 2 + v[3] * h * h * h / 6)
    w.ensure_eq("f' on the interval", f[1](a + h), v[1] + v[2] * h + v[3] * h * h / 2)
    w.ensure_eq("f'' on the interval", f[2](a + h), v[2] + v[3] * h)
    w.ensure_eq("f''' on the interval", f[3](a + h), v[3])
    w.ensure_eq('higher ones vanish', v[4], 0)
    w.ensure_eq('higher ones vanish', v[5], 0)
    w.ensure_eq('the table itself', t(a), v[0])


@contract('C22', 'sym bsym', funcs=FT, budget=90, assumes=A, bound='3..4 tabulated points')
def smooth_at_interior_points(w):
    t, x, y, N = spline(w, 3, 4)
    w.attr(t, 'form_eval_function')
    f, i = on_interval(w, t, x, N)
    a = x[i]                        # the cubic of interval i, continued to its right end
    h = x[i + 1] - x[i]
    v = [f[k](a) for k in range(4)]
    b = x[i + 1]
    w.ensure_eq('continuous', f[0](b), v[0] + v[1] * h + v[2] * h * h / 2 + v[3] * h * h * h / 6)
    w.ensure_eq('continuous slope', f[1](b), v[1] + v[2] * h + v[3] * h * h / 2)
    w.ensure_eq('continuous curvature', f[2](b), v[2] + v[3] * h)


@contract('C22', 'sym bsym', funcs=FT, budget=90, assumes=A, bound='3..4 tabulated points')
def natural_at_the_ends(w):
    t, x, y, N = spline(w, 3, 4)
    w.attr(t, 'form_eval_function')
    w.mention(0, 1, N - 1, N - 2)
    f = t.form_eval_function(2)
    w.ensure_eq('no curvature at the start', f(x[0]), 0)
    w.ensure_eq('no curvature at the end', f(x[N - 1]), 0)


@contract('C22', 'conc jit', funcs=FT, trials=60, budget=30, bound='tables of 3..12 points against scipy CubicSpline (natural)')
def tables_are_the_natural_spline(w):
    from scipy.interpolate import CubicSpline
    T1 = w.get(TB, 'TableSpline1D')
    N = w.dim('N', 3, 12)
    scale = w.choice('scale of the argument', [1.0, 1.0, 1e-9, 1e-4, 1e5, 1e9])
    x = w.times('x', N) * scale
    y = w.arr('y', N) * w.choice('scale of the value', [1.0, 1.0, 1e-7, 1e7])
    t = T1('tab', y, x)
    ref = CubicSpline(x, y, bc_type='natural')
    sc = float(np.min(np.diff(x)))
    for k in range(4):
        f = t.form_eval_function(k)
        pts = list(x[:-1] + 0.5 * np.diff(x)) + list(x[:-1] + 1e-3 * np.diff(x)) + ([] if k == 3 else list(x)) + [x[0], x[-1]]
        for p in pts:
            r = float(ref(p, k))
            w.ensure('derivative %d' % k, abs(f(p) - r) <= 1e-8 * (abs(r) + sc ** -k * 10 * np.max(np.abs(y))), 'at %r: %r, natural spline %r' % (p, f(p), r))
        w.ensure('callable table', abs(t(pts[0]) - float(ref(pts[0]))) < 1e-8 * (np.max(np.abs(y)) + abs(float(ref(pts[0])))))
    w.ensure('fourth derivative vanishes', t.form_eval_function(4)(x[0] + 0.1 * sc) == 0)


# -- expressions -------------------------------------------------------------
ARGS = [('a',), ('a*b',), ('a + 2*b',), ('a**2 + c',), ('a', 'b'), ('a', 'a'), ('b', 'a'), ('a*b', 'a + b'), ('a', 'a*c'), ('a2', 'a'), ('c', 'b'),
        ('a', 'b', 'c'), ('b', 'b', 'a'), ('a', 'a', 'a'), ('a + b', 'c', 'a*b')]
FUN = {1: (lambda u: u ** 3 - 2.0 * u * u + u, sympy.Lambda(sympy.symbols('u'), sympy.symbols('u') ** 3 - 2 * sympy.symbols('u') ** 2 + sympy.symbols('u'))),
       2: (lambda u, v: u ** 2 * v + 3.0 * v ** 2 - u, sympy.Lambda(sympy.symbols('u v'), sympy.sympify('u**2*v + 3*v**2 - u'))),
       3: (lambda u, v, s: u * v ** 2 + s * u ** 2 - 2.0 * s * v, sympy.Lambda(sympy.symbols('u v s'), sympy.sympify('u*v**2 + s*u**2 - 2*s*v')))}
SY = ['a', 'b', 'c', 'a2']


@contract('C22', 'conc', funcs=FS, trials=60, budget=60, bound='functions of <=3 arguments, second derivatives, several call sites together')
def derivatives_of_user_functions(w):
    P = w.get(SP, 'Problem')
    p = P(name='p')
    # names of numpy functions are as good as any other
    fn = w.rng.choice([{1: 'fun1', 2: 'fun2', 3: 'fun3'}, {1: 'fun1', 2: 'fun2', 3: 'fun3'}, {1: 'nansum', 2: 'cross', 3: 'clip'}, {1: 'rint', 2: 'polyval', 3: 'interp'}])
    for n in (1, 2, 3):
        p.custom_function(fn[n], FUN[n][0], '1', ['1'] * n)
    calls = [w.choice('call%d' % i, ARGS) for i in range(3)]
    for s in SY:
        p.local_compiler.add_symbolic_local(s)
    text = ' + '.join('%d*%s(%s)' % (i + 1, fn[len(c)], ', '.join(c)) for i, c in enumerate(calls))
    lc = p.local_compiler
    e = lc.sympify(text)
    syms = [sympy.Symbol(s) for s in SY]
    ref = sympy.sympify(text, locals=dict({fn[n]: FUN[n][1] for n in FUN}, **{s: sympy.Symbol(s) for s in SY}))
    var = w.choice('var', syms)
    var2 = w.choice('var2', syms)
    ex = [e, e.diff(var), e.diff(var2), e.diff(var).diff(var2)]
    rf = [ref, ref.diff(var), ref.diff(var2), ref.diff(var).diff(var2)]
    f = lc.lambdify(syms, sympy.Tuple(*ex))
    at = [round(w.real(s, -1, 1), 3) for s in SY]
    got = f(*at)
    for k, (g, r) in enumerate(zip(got, rf)):
        r = float(r.subs(dict(zip(syms, at))))
        w.ensure('derivative %d of %s' % (min(k, 2), 'a user function'), abs(float(g) - r) <= (1e-9 if k == 0 else 1e-5 if k < 3 else 1e-3) * (1 + abs(r)),
                 '%s d/d%s d/d%s at %s: %r, expected %r' % (text, var, var2, at, g, r))
    # replacing a symbol
    s = e.subs(var, sympy.Symbol('b') ** 2)
    g = lc.lambdify(syms, s)(*at)
    r = float(ref.subs(var, sympy.Symbol('b') ** 2).subs(dict(zip(syms, at))))
    w.ensure('substitution into a user function', abs(float(g) - r) <= 1e-8 * (1 + abs(r)), '%r expected %r' % (g, r))
    # all derivatives are still those they were (later derivatives do not overwrite earlier ones)
    for n in (1, 2, 3):
        lc.sympify('%s(%s)' % (fn[n], ', '.join(SY[:n]))).diff(sympy.Symbol('a'))
    got2 = lc.lambdify(syms, sympy.Tuple(*ex))(*at)
    w.ensure_eq('still the same', [float(v) for v in got2], [float(v) for v in got])


@contract('C22', 'conc', funcs=FS, trials=40, budget=60, bound='two tables, arguments composite, up to third derivative')
def derivatives_of_tables(w):
    from scipy.interpolate import CubicSpline
    P = w.get(SP, 'Problem')
    p = P(name='p')
    refs = {}
    T1 = w.rng.choice(['tab', 'tab', 'trace', 'cumsum'])
    for nm in (T1, 'tbl2'):
        N = w.dim('N' + nm, 3, 7)
        x, y = np.linspace(-6, 6, N), w.arr('y' + nm, N)
        p.table(nm, '1d_spline', y, x, '1', ['1'])
        refs[nm] = CubicSpline(x, y, bc_type='natural')
    for s in SY:
        p.local_compiler.add_symbolic_local(s)
    lc = p.local_compiler
    syms = [sympy.Symbol(s) for s in SY]
    args = [w.choice('arg%d' % i, ['a', 'b', 'a*b', 'a + 2*b', 'a**2', 'c*a']) for i in range(2)]
    text = T1 + '(%s)*2 + b*tbl2(%s)' % tuple(args)
    e = lc.sympify(text)
    var = w.choice('var', syms[:3])
    var2 = w.choice('var2', syms[:3])
    at = dict(zip(SY, [round(w.real(s, -1.3, 1.3), 3) for s in SY]))
    ex = [e, e.diff(var), e.diff(var, var2), e.diff(var, var2, var)]
    F = [sympy.Function(n)(sympy.sympify(a)) for n, a in zip((T1, 'tbl2'), args)]
    re_ = 2 * F[0] + sympy.Symbol('b') * F[1]
    rs = [re_, re_.diff(var), re_.diff(var, var2), re_.diff(var, var2, var)]

    def val(r):
        r = r.doit()
        u = sympy.Dummy('u')
        for n, a in zip((T1, 'tbl2'), args):
            pt = float(sympy.sympify(a).subs(at))
            for k in (3, 2, 1):
                def rep(*d, n=n, k=k, a=a):
                    return None
                r = r.replace(lambda q: isinstance(q, sympy.Subs) and q.expr.has(sympy.Function(n)) and isinstance(q.expr, sympy.Derivative)
                              and q.expr.derivative_count == k, lambda q, n=n, k=k, pt=pt: sympy.Float(float(refs[n](pt, k)), 20))
                r = r.replace(lambda q: isinstance(q, sympy.Derivative) and q.expr.func == sympy.Function(n) and q.derivative_count == k,
                              lambda q, n=n, k=k, pt=pt: sympy.Float(float(refs[n](pt, k)), 20))
            r = r.replace(sympy.Function(n), lambda q, n=n, pt=pt: sympy.Float(float(refs[n](pt)), 20))
        return float(r.subs(at))
    got = lc.lambdify(syms, sympy.Tuple(*ex))(*[at[s] for s in SY])
    for k, (g, r) in enumerate(zip(got, rs)):
        r = val(r)
        w.ensure('derivative %d of an expression with tables' % k, abs(float(g) - r) <= 1e-7 * (1 + abs(r)), '%s d%s d%s: %r, expected %r' % (text, var, var2, g, r))


@contract('C22', 'conc', funcs=FS, trials=4, budget=60, bound='all derivatives of total order <=3 of functions of <=3 arguments')
def two_derivatives_never_share_an_implementation(w):
    P = w.get(SP, 'Problem')
    p = P(name='p')
    for n in (1, 2, 3):
        p.custom_function('fun%d' % n, FUN[n][0], '1', ['1'] * n)
    lc = p.local_compiler
    cs = [w.choice('site%d' % i, [a for a in ARGS if len(a) == n]) for i, n in enumerate((1, 2, 3, 2, 3))]
    owner = {}
    for c in cs:
        n = len(c)
        e = lc.sympify('fun%d(%s)' % (n, ', '.join(c)))
        todo = [(e, (0,) * n)]
        seen = set()
        while todo:
            q, o = todo.pop()
            if o in seen or sum(o) > 3:
                continue
            seen.add(o)
            nm = type(q).__name__
            w.ensure('the name can be used in generated code', nm.isidentifier(), nm)
            w.ensure('one implementation for one derivative', owner.setdefault(nm, (n, o)) == (n, o), '%s is %s and %s' % (nm, owner.get(nm), (n, o)))
            impl = lc.func_locals.get(nm)
            w.ensure('registered', impl is not None, nm)
            for j in range(n):
                todo.append((q.fdiff(j + 1), tuple(v + (k == j) for k, v in enumerate(o))))
    # the implementations are those derivatives
    us = sympy.symbols('u v s')
    for nm, (n, o) in owner.items():
        ref = FUN[n][1](*us[:n])
        for s, k in zip(us, o):
            if k:
                ref = ref.diff(s, k)
        at = [0.3, -0.7, 0.9][:n]
        r = float(ref.subs(dict(zip(us, at))))
        g = float(lc.func_locals[nm](*at))
        w.ensure('implementation', abs(g - r) <= 2e-2 * (1 + abs(r)), '%s%s: %r, expected %r' % (nm, o, g, r))
