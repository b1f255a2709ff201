"""C23: numerical derivatives are exact on the polynomials their stencil can represent."""
import itertools, math
import numpy as np
import sympy
from belv.world import contract, Discard

ND = 'beluga.numeric.numerical_derivatives'
FD = ND + '.finite_diff'
METHODS = {'f_diff': 'forward', 'b_diff': 'backward', 'c_diff': 'central'}


def points(method, order, acc=1):
    n = order + acc
    return n + 1 if method == 'central' and n % 2 == 0 else n


@contract('C23', 'bsym', funcs=['gen_fin_diff_coeff'], budget=60, bound='grids of 1..4 arbitrary distinct points, every derivative order below the number of points')
def weights_satisfy_the_moment_conditions(w):
    gen = w.get(FD, 'gen_fin_diff_coeff')
    n = w.dim('points', 1, 4)
    m = w.int_in('order', 0, n - 1)
    xs = sympy.symbols('x0:%d' % n)
    grid = np.array(xs, dtype=object)
    c = gen(m, grid)
    w.ensure_eq('one weight per point', len(c), n)
    for p in range(n):
        s = sum(sympy.sympify(c[k]) * xs[k] ** p for k in range(n))
        w.expr_eq('moment %d' % p, sympy.cancel(sympy.nsimplify(s)), sympy.Integer(math.factorial(m) if p == m else 0))


@contract('C23', 'conc', funcs=['gen_fin_diff_coeff'], trials=300, budget=30, bound='grids of 1..8 points in any order')
def weights_on_generated_grids(w):
    gen = w.get(FD, 'gen_fin_diff_coeff')
    n = w.dim('points', 1, 8)
    m = w.int_in('order', 0, min(n - 1, 4))
    g = w.arr('grid', n, lo=-2, hi=2)
    if n > 1 and min(abs(a - b) for a, b in itertools.combinations(g, 2)) < 0.15:
        raise Discard()
    c = gen(m, g)
    for p in range(n):
        want = math.factorial(m) if p == m else 0.0
        w.ensure('moment', abs(float(np.dot(c, g ** p)) - want) <= 1e-7 * (1 + float(np.dot(np.abs(c), np.abs(g) ** p))),
                 'moment %d of derivative %d: %r' % (p, m, float(np.dot(c, g ** p))))
    if n <= 4:
        for k in range(n, n + 2):
            w.ensure_raises('too few points are refused', lambda: gen(k, g))


def spec_poly(w, orders, npts, args):
    """f(args) = sum over powers below the number of points of c[powers](the arguments that are not differentiated) * product,
    with arbitrary coefficients; its exact derivative"""
    n = len(orders)
    act = [i for i in range(n) if orders[i]]
    pas = [i for i in range(n) if not orders[i]]
    pw = list(itertools.product(*[range(npts[i]) for i in act]))
    cf = {p: w.fn('c' + '_'.join(map(str, p))) for p in pw}

    def f(*a):
        s = 0
        for p in pw:
            t = cf[p](*[a[i] for i in pas]) if pas else w_const(w, p)
            for i, k in zip(act, p):
                for _ in range(k):
                    t = t * a[i]
            s = s + t
        return s

    def exact():
        s = 0
        for p in pw:
            t = cf[p](*[args[i] for i in pas]) if pas else w_const(w, p)
            for i, k in zip(act, p):
                for d in range(orders[i]):
                    t = t * (k - d)
                for _ in range(k - orders[i]):
                    t = t * args[i]
            s = s + t
        return s
    names = 'abc'[:n]
    return eval('lambda %s: f(%s)' % (', '.join(names), ', '.join(names)), dict(f=f)), exact()


def w_const(w, p):
    return w.real('c' + '_'.join(map(str, p)))


ORDERS = [(1,), (2,), (3,), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 1, 1), (1, 0, 1)]
HIGH = [(4,), (5,), (4, 0), (0, 4), (2, 2), (3, 1), (1, 2), (1, 1, 1), (0, 2, 1), (0, 0, 4)]


@contract('C23', 'bsym', funcs=['gen_fin_diff', 'gen_fin_diff_coeff', 'gen_num_diff'], budget=60,
          bound='up to 3 arguments, derivatives up to fourth order, every method; polynomial coefficients, point and step arbitrary')
def differences_are_exact_on_their_polynomials(w):
    gen = w.get(FD, 'gen_fin_diff')
    method = w.choice('method', ['forward', 'backward', 'central'])
    orders = w.choice('orders', ORDERS + [(4,), (0, 4), (2, 2), (1, 2), (1, 1, 1)])
    h = w.real('h', 0, 1)
    args = [w.real('arg%d' % i) for i in range(len(orders))]
    f, want = spec_poly(w, orders, [points(method, o) for o in orders], args)
    d = gen(f, deriv_order=orders, step_size=h, method=method)
    w.ensure_eq('exact derivative', d(*args), want)


@contract('C23', 'bsym', funcs=['gen_fin_diff'], budget=30, bound='functions of <=3 arguments')
def default_is_the_first_argument(w):
    gen = w.get(FD, 'gen_fin_diff')
    n = w.dim('args', 1, 3)
    orders = (1,) + (0,) * (n - 1)
    h = w.real('h', 0, 1)
    args = [w.real('arg%d' % i) for i in range(n)]
    f, want = spec_poly(w, orders, [points('central', o) for o in orders], args)
    w.ensure_eq('derivative in the first argument', gen(f, step_size=h)(*args), want)


def rand_poly(w, orders, npts):
    n = len(orders)
    pw = list(itertools.product(*[range(npts[i]) for i in range(n)]))
    cs = [round(w.real('c' + '_'.join(map(str, p)), -2, 2), 2) for p in pw]
    names = ['a', 'b', 'c'][:n]
    src = ' + '.join('(%r)*%s' % (c, '*'.join('%s**%d' % (x, k) for x, k in zip(names, p))) for c, p in zip(cs, pw))
    f = eval('lambda %s: %s' % (', '.join(names), src))
    e = sympy.sympify(src)
    for x, o in zip(names, orders):
        if o:
            e = e.diff(x, o)
    return f, e, names


@contract('C23', 'conc', funcs=['gen_fin_diff', 'gen_num_diff', 'gen_fin_diff_coeff'], trials=150, budget=40,
          bound='up to 3 arguments, derivatives up to fifth order, accuracy order 1..3, random polynomials')
def generated_differences(w):
    gen, num = w.get(FD, 'gen_fin_diff'), w.get(ND, 'gen_num_diff')
    method = w.choice('method', list(METHODS))
    orders = w.choice('orders', ORDERS + HIGH)
    acc = w.dim('accuracy', 1, 3)
    npts = [points(METHODS[method], o, acc) for o in orders]
    f, e, names = rand_poly(w, orders, [min(p, max(4, o + 1)) if o else 2 for p, o in zip(npts, orders)])
    at = [round(w.real('at%d' % i, -1, 1), 3) for i in range(len(orders))]
    want = float(e.subs(dict(zip(names, at))))
    got = gen(f, deriv_order=orders, step_size=0.05 if sum(orders) < 4 else 0.2, acc_order=acc, method=METHODS[method])(*at)
    w.ensure('exact on its polynomials', abs(got - want) <= 1e-7 * (1 + abs(want)), '%s%s: %r expected %r' % (method, orders, got, want))
    # the default accuracy through the public entry: small step, smooth function
    got = num(f, order=orders, method=method)(*at)
    w.ensure('approximates the derivative', abs(got - want) <= 5e-2 * (1 + abs(want)) * (1 if sum(orders) < 3 else 4 if sum(orders) < 4 else 40), '%s%s: %r expected %r' % (method, orders, got, want))
    seen = []

    def probe(*a):
        seen.append(a)
        return f(*a)
    pr = eval('lambda %s: probe(%s)' % (', '.join(names), ', '.join(names)), dict(probe=probe))
    num(pr, order=orders, method=method)(*at)
    for i in range(len(orders)):
        d = [a[i] - at[i] for a in seen]
        w.ensure('%s: evaluated on its own side only' % method, (method != 'f_diff' or min(d) >= -1e-15) and (method != 'b_diff' or max(d) <= 1e-15),
                 '%s %s' % (min(d), max(d)))
        w.ensure('evaluated nearby, other arguments kept', max(map(abs, d)) <= (0.5 if orders[i] else 1e-15))
    w.ensure('no derivative asked: the function', num(f, order=(0,) * len(orders), method=method)(*at) == f(*at))
    w.ensure_raises('unknown method', lambda: num(f, order=orders, method='none'), NotImplementedError)


@contract('C23', 'conc', funcs=['gen_csd', 'gen_num_diff'], trials=60, budget=30, bound='first and second complex-step derivatives, up to 3 arguments')
def complex_step(w):
    num = w.get(ND, 'gen_num_diff')
    orders = w.choice('orders', ORDERS + HIGH)
    f, e, names = rand_poly(w, orders, [max(3, o + 1) if o else 2 for o in orders])
    at = [round(w.real('at%d' % i, -1, 1), 3) for i in range(len(orders))]
    want = float(e.subs(dict(zip(names, at))))
    got = num(f, order=orders, method='csd')(*at)
    tol = 1e-10 if sum(orders) == 1 else 2e-2 if sum(orders) < 3 else 1e-1 if sum(orders) < 4 else 0.5
    w.ensure('complex-step derivative', abs(got - want) <= tol * (1 + abs(want)), '%s: %r expected %r' % (orders, got, want))


@contract('C23', 'jit', funcs=['gen_fin_diff', 'gen_num_diff', 'gen_csd'], trials=240, budget=60, bound='compiled, random polynomials')
def compiled_differences(w):
    num = w.get(ND, 'gen_num_diff')
    method = w.choice('method', list(METHODS) + ['csd', 'csd'])
    orders = w.choice('orders', [(1,), (2,), (1, 0), (0, 1), (1, 1), (0, 0, 1)])
    f, e, names = rand_poly(w, orders, [4 if o else 2 for o in orders])
    at = [round(w.real('at%d' % i, -1, 1), 3) for i in range(len(orders))]
    want = float(e.subs(dict(zip(names, at))))
    got = num(f, order=orders, method=method)(*at)
    w.ensure('approximates the derivative', abs(got - want) <= 5e-2 * (1 + abs(want)), '%s%s: %r expected %r' % (method, orders, got, want))


class Held:
    """coefficients in an object numba cannot handle"""

    def __init__(self, c):
        self.c = c


@contract('C23', 'jit', funcs=['gen_fin_diff', 'gen_csd', 'gen_num_diff'], trials=600, budget=40,
          bound='functions that cannot be compiled, random polynomials')
def functions_that_cannot_be_compiled(w):
    num = w.get(ND, 'gen_num_diff')
    method = w.choice('method', list(METHODS) + ['csd'])
    orders = w.choice('orders', [(1,), (2,), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1), (0, 0, 1), (0, 2, 0), (0, 0, 2)])
    g, e, names = rand_poly(w, orders, [3 if o else 2 for o in orders])
    h = Held(1.0)
    f = eval('lambda %s: h.c*g(%s)' % (', '.join(names), ', '.join(names)), dict(h=h, g=g))
    at = [round(w.real('at%d' % i, -1, 1), 3) for i in range(len(orders))]
    want = float(e.subs(dict(zip(names, at))))
    got = num(f, order=orders, method=method)(*at)
    w.ensure('approximates the derivative', abs(got - want) <= 5e-2 * (1 + abs(want)), '%s%s: %r expected %r' % (method, orders, got, want))
