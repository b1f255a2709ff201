"""C17: compiled functions compute exactly the symbolic problem."""
import copy
from types import SimpleNamespace as NS
import numpy as np
import sympy
from belv import sx
from belv.world import contract
from belv.contracts.common import small_ocp, OCP_KINDS, quadrature, MF, SP

CC = 'beluga.numeric.compilation.component_compilation'
LC = 'beluga.numeric.compilation.LocalCompiler'
HF = 'beluga.utils.helper_functions'
BOUND = 'states <=3, quadratures <=2, parameters <=2, boundary parameters <=2; expressions polynomial (Jacobians) or arbitrary functions, all values symbolic'

# declaration order deliberately differs from alphabetical order
XS, QS, PS, NS_, KS = ['z', 'b', 'y1'], ['qq', 'a1'], ['p9', 'p1'], ['w2', 'nu1'], ['k7', 'c2', 'h']


def poly(rng, names, i):
    """a polynomial that treats every name differently"""
    r = []
    for j, a in enumerate(names):
        b = names[(i + 2 * j + 1) % len(names)]
        c = rng.randint(1, 9) + 10 * j + i
        r.append('%d*%s*%s' % (c, a, b) if j % 3 else '%d*%s**%d' % (c, a, 1 + (i + j) % 3))
    return ' + '.join(r)


def rough(rng, names, i):
    """a random non-polynomial expression"""
    from belv.contracts.common import rexpr
    return rexpr(rng, names, 4) + ' + ' + poly(rng, names, i)


def bvp(w, dims, mk, method='direct', jac=False, us=()):
    nx, nq, npar, ncp, nk, n0, nf = dims
    P = w.get(SP, 'Problem')
    pre, direct, post = w.get(MF, 'make_preprocessor', 'make_direct_method', 'make_postprocessor')
    p = P(name='bvp')
    p.independent('t', 's')
    dyn = XS[:nx] + PS[:npar] + KS[:nk] + list(us)
    bnd = XS[:nx] + QS[:nq] + PS[:npar] + NS_[:ncp] + KS[:nk]
    n = [0]

    def f(names):
        n[0] += 1
        return mk(p, names, n[0])
    for x in XS[:nx]:
        p.state(x, f(dyn), '1')
    for x in QS[:nq]:
        p.quad(x, f(dyn), '1')
    for x in PS[:npar]:
        p.parameter(x, '1')
    for x in NS_[:ncp]:
        p.constraint_parameter(x, '1')
    for x in us:
        p.control(x, '1')
    for i, x in enumerate(KS[:nk]):
        p.constant(x, 1.0 + i, '1')
    p.set_cost(path=f(dyn), initial=f(bnd), terminal=f(bnd), units='1')
    for _ in range(n0):
        p.initial_constraint(f(bnd + list(us)), '1')
    for _ in range(nf):
        p.terminal_constraint(f(bnd + list(us)), '1')
    law = [f(XS[:nx] + PS[:npar] + KS[:nk]) for _ in us]
    p = pre()(p)
    if us:
        p.control_law = [tuple(p.sympify(e) for e in law)]
    o = copy.deepcopy(p)
    out = post()(direct(copy.deepcopy(p), analytical_jacobian=jac)(p))
    return o, out.functional_problem


def dims_of(w, need_par):
    if w.symbolic:
        return w.choice('dims', [(1, 0, 1, 0, 1, 1, 1), (2, 0, 1, 1, 2, 1, 2), (3, 0, 2, 2, 1, 2, 1), (2, 1, 1, 1, 1, 2, 1),
                                 (2, 2, 2, 2, 2, 1, 2), (1, 1, 1, 0, 3, 1, 1)])
    r = w.rng
    return (r.randint(1, 3), r.randint(0, 2), r.randint(1 if need_par else 0, 2), r.randint(0, 2), r.randint(1, 3), r.randint(1, 3), r.randint(1, 3))


def point(w, dims):
    nx, nq, npar, ncp, nk = dims[:5]
    v = NS(y0=w.arr('y0', nx), yf=w.arr('yf', nx), q0=w.arr('q0', nq), qf=w.arr('qf', nq), p=w.arr('p', npar),
           nu=w.arr('nu', ncp), k=w.arr('k', nk))
    c = list(zip(PS, v.p)) + list(zip(KS, v.k)) + list(zip(NS_, v.nu))
    v.e0 = dict(list(zip(XS, v.y0)) + list(zip(QS, v.q0)) + c)
    v.ef = dict(list(zip(XS, v.yf)) + list(zip(QS, v.qf)) + c)
    return v


def evs(w, exprs, env, fns):
    return [sx.value(e, env, fns) for e in exprs]


def same_vec(w, name, got, want):
    got = list(got)
    w.ensure_eq(name + ': count', len(got), len(want))
    for g, x in zip(got, want):
        w.ensure_eq(name, g, x)


@contract('C17', 'bsym conc jit', trials=40, budget=80, bound=BOUND,
          funcs=['NumericProblem.compile_problem', 'NumericProblem._initialize', 'NumericProblem.compile_deriv_func', 'NumericProblem.compile_bc',
                 'NumericProblem.compile_cost', 'LocalCompiler.lambdify', 'jit_compile_func', 'tuplefy', 'CompileProblem.transformation'])
def compiled_functions_evaluate_the_expressions(w):
    F = {}
    dims = dims_of(w, False)
    opaque = w.mode == 'bsym' or (w.mode == 'conc' and w.rng.random() < 0.4)

    def mk(p, names, i):
        if opaque:
            nm = 'F%d' % i
            F[nm] = w.fn(nm)
            p.add_symbolic_local(nm, sympy.Function(nm))
            p.add_function_local(nm, F[nm])
            return '%s(%s) + %d*%s' % (nm, ', '.join(reversed(names)), i, names[0])
        return rough(w.rng, names, i)
    o, fp = bvp(w, dims, mk)
    v = point(w, dims)
    want = lambda xs, env: evs(w, xs, env, F)
    for y, env in ((v.y0, v.e0), (v.yf, v.ef)):
        same_vec(w, 'dynamics', fp.deriv_func(y, v.p, v.k), want([s.eom for s in o.states], env))
        w.ensure_eq('path cost', fp.path_cost_func(y, v.p, v.k), want([o.cost.path], env)[0])
        if o.quads:
            same_vec(w, 'quadratures', fp.quad_func(y, v.p, v.k), want([s.eom for s in o.quads], env))
    q0, qf = ((v.q0,), (v.qf,)) if o.quads else ((), ())
    wbc = want([c.expr for c in o.constraints['initial']], v.e0) + want([c.expr for c in o.constraints['terminal']], v.ef)
    same_vec(w, 'boundary conditions', fp.bc_func(v.y0, *q0, v.yf, *qf, v.p, v.nu, v.k), wbc)
    w.ensure_eq('initial cost', fp.initial_cost_func(v.y0, *q0, v.p, v.nu, v.k), want([o.cost.initial], v.e0)[0])
    w.ensure_eq('terminal cost', fp.terminal_cost_func(v.yf, *qf, v.p, v.nu, v.k), want([o.cost.terminal], v.ef)[0])


@contract('C17', 'bsym conc jit', trials=40, budget=80, bound=BOUND + ', controls <=2 with a control law',
          funcs=['NumericProblem.compile_control', 'NumericProblem.compile_deriv_func', 'NumericProblem.compile_bc', 'NumericProblem.compile_cost', 'compile_control'])
def compiled_functions_use_the_control_of_their_point(w):
    F = {}
    if w.symbolic:
        dims = w.choice('dims', [(1, 0, 1, 0, 1, 1, 1), (2, 0, 1, 1, 1, 1, 2), (2, 1, 1, 1, 1, 2, 1), (1, 2, 0, 0, 1, 1, 1)])
    else:
        dims = dims_of(w, False)
    us = ['v', 'a9'][:w.choice('controls', [1, 2])]
    opaque = w.mode == 'bsym' or (w.mode == 'conc' and w.rng.random() < 0.4)

    def mk(p, names, i):
        if opaque:
            nm = 'F%d' % i
            F[nm] = w.fn(nm)
            p.add_symbolic_local(nm, sympy.Function(nm))
            p.add_function_local(nm, F[nm])
            return '%s(%s) + %d*%s' % (nm, ', '.join(reversed(names)), i, names[0])
        return rough(w.rng, names, i)
    o, fp = bvp(w, dims, mk, us=us)
    v = point(w, dims)
    if w.mode != 'bsym':
        w.tol = 1e-7
    U = [evs(w, o.control_law[0], env, F) for env in (v.e0, v.ef)]
    full = [dict(env, **dict(zip(us, u))) for env, u in zip((v.e0, v.ef), U)]
    want = lambda xs, env: evs(w, xs, env, F)
    for y, env, u in ((v.y0, full[0], U[0]), (v.yf, full[1], U[1])):
        same_vec(w, 'control', fp.compute_u(y, v.p, v.k), u)
        same_vec(w, 'dynamics', fp.deriv_func(y, v.p, v.k), want([s.eom for s in o.states], env))
        w.ensure_eq('path cost', fp.path_cost_func(y, v.p, v.k), want([o.cost.path], env)[0])
        if o.quads:
            same_vec(w, 'quadratures', fp.quad_func(y, v.p, v.k), want([s.eom for s in o.quads], env))
    q0, qf = ((v.q0,), (v.qf,)) if o.quads else ((), ())
    wbc = want([c.expr for c in o.constraints['initial']], full[0]) + want([c.expr for c in o.constraints['terminal']], full[1])
    same_vec(w, 'boundary conditions', fp.bc_func(v.y0, *q0, v.yf, *qf, v.p, v.nu, v.k), wbc)


@contract('C17', 'bsym conc jit', trials=40, budget=80, bound=BOUND,
          funcs=['ComputeAnalyticalJacobians.transformation', 'NumericProblem.compile_deriv_jac_func', 'NumericProblem.compile_bc_jac_func'])
def jacobians_are_the_partial_derivatives(w):
    """precondition: at least one parameter and one condition at each end (as in every derived problem)"""
    dims = dims_of(w, True)
    import random
    rng = random.Random(5) if w.symbolic else w.rng
    mk = (lambda p, names, i: poly(rng, names, i)) if w.symbolic else (lambda p, names, i: rough(rng, names, i))
    o, fp = bvp(w, dims, mk, jac=True)
    v = point(w, dims)
    S = lambda a: [s.sym for s in a]
    D = lambda es, syms, env: [[sx.value(sympy.diff(e, s), env) for s in syms] for e in es]

    def same_mat(name, got, want, nc):
        w.ensure(name + ': shape', tuple(np.shape(got)) == (len(want), nc), '%s vs %s' % (np.shape(got), (len(want), nc)))
        for i, row in enumerate(want):
            for j, x in enumerate(row):
                w.ensure_eq(name, got[i][j], x)
    eoms = [s.eom for s in o.states]
    for y, env in ((v.y0, v.e0), (v.yf, v.ef)):
        dy, dp = fp.deriv_func_jac(y, v.p, v.k)
        same_mat('rates by states', dy, D(eoms, S(o.states), env), len(o.states))
        same_mat('rates by parameters', dp, D(eoms, S(o.parameters), env), len(o.parameters))
    c0, cf = [c.expr for c in o.constraints['initial']], [c.expr for c in o.constraints['terminal']]
    q0, qf = ((v.q0,), (v.qf,)) if o.quads else ((), ())
    r = fp.bc_func_jac(v.y0, *q0, v.yf, *qf, v.p, v.nu, v.k)
    zero = lambda es, n: [[0.0] * n for _ in es]
    nx, nq = len(o.states), len(o.quads)
    ps = S(o.parameters) + S(o.constraint_parameters)
    same_mat('conditions by initial states', r[0], D(c0, S(o.states), v.e0) + zero(cf, nx), nx)
    same_mat('conditions by final states', r[1], zero(c0, nx) + D(cf, S(o.states), v.ef), nx)
    same_mat('conditions by parameters', r[2], D(c0, ps, v.e0) + D(cf, ps, v.ef), len(ps))
    if nq:
        same_mat('conditions by initial quadratures', r[3], D(c0, S(o.quads), v.e0) + zero(cf, nq), nq)
        same_mat('conditions by final quadratures', r[4], zero(c0, nq) + D(cf, S(o.quads), v.ef), nq)


@contract('C17', 'conc jit', trials=30, budget=80, funcs=['make_indirect_method', 'CompileProblem.transformation', 'NumericProblem.compile_problem', 'ComputeAnalyticalJacobians.transformation'])
def derived_problem_compiles_to_its_expressions(w):
    ind, pre, post = w.get(MF, 'make_indirect_method', 'make_preprocessor', 'make_postprocessor')
    kind = w.choice('kind', OCP_KINDS)
    method = w.choice('method', ['traditional', 'diffyg'])
    jac = w.choice('jac', [True, False])
    p = pre()(small_ocp(w, kind))
    b = ind(copy.deepcopy(p), method=method, control_method='differential', analytical_jacobian=jac)(p)
    fp = post()(copy.deepcopy(b)).functional_problem
    y0, yf = w.arr('y0', len(b.states), lo=0.2, hi=1.2), w.arr('yf', len(b.states), lo=0.2, hi=1.2)
    par, nu = w.arr('p', len(b.parameters), lo=0.5, hi=2.0), w.arr('nu', len(b.constraint_parameters))
    k = w.arr('k', len(b.constants), lo=0.5, hi=2.0)
    env = lambda y: {**{s.name: a for s, a in zip(b.states, y)}, **{s.name: a for s, a in zip(b.parameters, par)},
                     **{s.name: a for s, a in zip(b.constraint_parameters, nu)}, **{s.name: a for s, a in zip(b.constants, k)}}
    e0, ef = env(y0), env(yf)
    w.tol = 1e-7
    same_vec(w, 'dynamics', fp.deriv_func(y0, par, k), evs(w, [s.eom for s in b.states], e0, {}))
    same_vec(w, 'boundary conditions', fp.bc_func(y0, yf, par, nu, k),
             evs(w, [c.expr for c in b.constraints['initial']], e0, {}) + evs(w, [c.expr for c in b.constraints['terminal']], ef, {}))
    w.ensure_eq('path cost', fp.path_cost_func(y0, par, k), sx.value(b.cost.path, e0))
    if jac:
        dy, dp = fp.deriv_func_jac(y0, par, k)
        for i, s in enumerate(b.states):
            for j, x in enumerate(b.states):
                w.ensure_eq('rates by states', dy[i][j], sx.value(sympy.diff(s.eom, x.sym), e0))
            for j, x in enumerate(b.parameters):
                w.ensure_eq('rates by parameters', dp[i][j], sx.value(sympy.diff(s.eom, x.sym), e0))
        r = fp.bc_func_jac(y0, yf, par, nu, k)
        n0 = len(b.constraints['initial'])
        ps = [x.sym for x in b.parameters + b.constraint_parameters]
        for i, c in enumerate(b.constraints['initial'] + b.constraints['terminal']):
            at0 = i < n0
            e = e0 if at0 else ef
            for j, x in enumerate(b.states):
                d = sx.value(sympy.diff(c.expr, x.sym), e)
                w.ensure_eq('conditions by initial states', r[0][i][j], d if at0 else 0.0)
                w.ensure_eq('conditions by final states', r[1][i][j], 0.0 if at0 else d)
            for j, x in enumerate(ps):
                w.ensure_eq('conditions by parameters', r[2][i][j], sx.value(sympy.diff(c.expr, x), e))


@contract('C17', 'bsym conc jit', trials=60, budget=40, bound='argument groups <=3 of length <=3, nesting depth <=3', funcs=['LocalCompiler.lambdify', 'tuplefy', 'jit_compile_func', 'LocalCompiler.add_function_local', 'LocalCompiler.sympify'])
def lambdify_reads_arguments_in_order_and_keeps_nesting(w):
    L = w.get(LC, 'LocalCompiler')
    lc = L()
    F = {}
    pyfn = w.mode != 'jit'
    if pyfn:
        F['g'] = w.fn('g')
        lc.add_symbolic_local('g', sympy.Function('g'))
        lc.add_function_local('g', F['g'])
    shape = w.choice('shape', ['scalar', 'flat', 'nested', 'deep', 'array'])
    grp = [['b', 'a', 'c'], ['z', 'd'], []]
    sc = w.choice('scalar_arg', [False, True])
    names = [n for g in grp for n in g] + (['s'] if sc else [])
    for n in names:
        lc.add_symbolic_local(n)
    E = [lc.sympify('%d*%s*%s + %s' % (i + 2, names[i % len(names)], names[(2 * i + 1) % len(names)],
                                       'g(%s, %s)' % (names[(i + 3) % len(names)], names[0]) if pyfn else names[(i + 3) % len(names)])) for i in range(8)]
    tree = {'scalar': E[0], 'flat': [E[0], E[1], E[2]], 'nested': [[E[0], E[1]], [E[2], E[3]]], 'deep': [[[E[0], E[1]], [E[2], E[3]]], [[E[4], E[5]], [E[6], E[7]]]],
            'array': np.array([[E[0], E[1], E[2]], [E[3], E[4], E[5]]], dtype=object)}[shape]
    args = [[sympy.Symbol(n) for n in g] for g in grp] + ([sympy.Symbol('s')] if sc else [])
    f = lc.lambdify(args, tree)
    vals = [w.arr('v%d' % i, len(g)) for i, g in enumerate(grp)] + ([w.real('s')] if sc else [])
    env = {n: x for g, v in zip(grp, vals) for n, x in zip(g, v)}
    if sc:
        env['s'] = vals[-1]
    got = f(*vals)

    def cmp(t, g):
        if isinstance(t, (list, np.ndarray)):
            w.ensure_eq('nesting kept', len(g), len(t))
            for a, b in zip(t, g):
                cmp(a, b)
        else:
            w.ensure_eq('value of the expression', g, sx.value(t, env, F))
    cmp(tree, got)


@contract('C17', 'sym bsym conc', trials=60, budget=60, bound='nodes 2..4', funcs=['compile_cost'],
          assumes=['scipy.integrate.simpson: quadrature is a function of the samples and the grid', 'lambdify_func evaluates the given expression at the argument vectors (proved for LocalCompiler.lambdify separately)'])
def cost_is_initial_plus_terminal_plus_integral(w):
    cc = w.get(CC, 'compile_cost')
    N = w.dim('N', 2, 4)
    nx, nu, npar, nk = 2, 1, 1, 1
    withq = w.choice('quads', [False, True])
    I, P, Tm = w.fn('I'), w.fn('P'), w.fn('T')
    table = {'ini': I, 'ter': Tm, 'pat': P}
    cost = NS(initial='ini', path='pat', terminal='ter')
    lam = lambda args, e: table[e]
    f = cc(cost, ['dyn'], ['bc'], lam)
    t, y, u, p, k = w.times('t', N), w.arr('y', N, nx), w.arr('u', N, nu), w.arr('p', npar), w.arr('k', nk)
    q = w.arr('q', N, 1) if withq else np.array([])
    got = f(t, y, q, u, p, k)
    q0, qf = (q[0, :], q[-1, :]) if withq else (q, q)
    path = w.rowmap(N, lambda a, b: P(a, b, p, k), y, u)
    w.ensure_eq('cost of a trajectory', got, I(y[0, :], q0, p, k) + Tm(y[-1, :], qf, p, k) + quadrature(w, path, t))
