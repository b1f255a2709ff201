"""C11: algebraic control laws."""
import copy
import itertools
from types import SimpleNamespace as NS
import numpy as np
import sympy
from belv import sx
from belv.world import contract
from belv.contracts.common import generic_ocp, new_sol, MF, SP, TM

CC = 'beluga.numeric.compilation.component_compilation'
NP = 'beluga.numeric.data_classes.NumericProblem'


def is_min(w, tag, u, cands, ham):
    """u is one of the candidates and no candidate has a smaller Hamiltonian"""
    hs = [ham(c) for c in cands]
    hu = ham(list(u))
    ok_in, ok_min = False, True
    for c in cands:
        same = True
        for a, b in zip(c, u):
            e = (a == b) if w.symbolic else abs(a - b) <= 1e-9 * (1 + abs(a))
            same = e if same is True else (same & e)
        ok_in = same if ok_in is False else (ok_in | same)
    for h in hs:
        e = (hu <= h) if w.symbolic else hu <= h + 1e-9 * (1 + abs(h))
        ok_min = e if ok_min is True else (ok_min & e)
    w.ensure(tag + ': the control is one of the candidates', ok_in, '%s not in %s' % (u, cands))
    w.ensure(tag + ': no candidate has a smaller Hamiltonian', ok_min, 'H=%s candidates %s' % (hu, hs))


@contract('C11', 'bsym conc', trials=80, budget=60, bound='1..4 candidates, 1..2 controls; candidates and Hamiltonian arbitrary functions',
          funcs=['compile_control'])
def compiled_control_minimises_the_hamiltonian(w):
    cc = w.get(CC, 'compile_control')
    n = w.choice('n', [1, 2, 3, 4]) if w.symbolic else w.rng.randint(1, 6)
    nu = w.choice('nu', [1, 2])
    ny, npar, nk = 2, 1, 1
    fs = [[w.fn('c%d_%d' % (i, j)) for j in range(nu)] for i in range(n)]
    opts = [tuple('opt%d_%d' % (i, j) for j in range(nu)) for i in range(n)]
    look = {opts[i][j]: fs[i][j] for i in range(n) for j in range(nu)}

    def lambdify(args, expr):
        # assumed contract of lambdify: evaluates the given expression tree at the argument vectors
        def ev(e, y, p, k):
            if isinstance(e, str):
                return look[e](y, p, k)
            return tuple(ev(x, y, p, k) for x in e)
        return lambda y, p, k: ev(expr, y, p, k)
    H = w.fn('H')
    ham = lambda y, u, p, k: H(y, list(u), p, k)
    args = [[sympy.Symbol('y%d' % i) for i in range(ny)], [sympy.Symbol('p0')], [sympy.Symbol('k0')]]
    f = cc(opts, args, ham, lambdify)
    y, p, k = w.arr('y', ny), w.arr('p', npar), w.arr('k', nk)
    u = f(y, p, k)
    w.ensure_eq('one value per control', len(u), nu)
    is_min(w, 'compile_control', list(u), [[c(y, p, k) for c in row] for row in fs], lambda c: H(y, list(c), p, k))
    w.ensure('no candidate: no control function', cc([], args, ham, lambdify) is None)


def problem_with_laws(w, n, nu, quads):
    """a dual problem whose control law has n arbitrary candidate tuples"""
    P = w.get(SP, 'Problem')
    p = P(name='laws')
    p.independent('t', 's').state('x0', '0', '1').state('x1', '0', '1')
    for j in range(nu):
        p.control('u%d' % j, '1')
    p.constant('k0', 1, '1').constant('k1', 2, '1').parameter('p0', '1')
    if quads:
        p.quad('z', '0', '1')
    p.set_cost(path='0', initial='0', terminal='0', units='1')
    F = {}

    def op(name, args):
        F[name] = w.fn(name)
        p.add_symbolic_local(name, sympy.Function(name))
        p.add_function_local(name, F[name])
        return '%s(%s)' % (name, ', '.join(args))
    us = ['u%d' % j for j in range(nu)]
    a = ['x0', 'x1', 'p0', 'k0', 'k1']
    for s in p.states:
        s.eom = op('f_' + s.name, a + us)
    for s in p.quads:
        s.eom = op('h_' + s.name, a + us)
    p.set_cost(path=op('L', a + us), initial='0', terminal='0', units='1')
    p.constraint_parameter('nu0', '1')
    p.initial_constraint(op('b0', a + us + ['nu0']), '1').terminal_constraint(op('b1', a + us + ['nu0']), '1').terminal_constraint(op('b2', a + us), '1')
    laws = [tuple(op('c%d_%d' % (i, j), a) for j in range(nu)) for i in range(n)]
    hm = op('Ham', a + us)
    p.sympify_self()
    p.control_law = [tuple(p.sympify(e) for e in row) for row in laws]
    p.hamiltonian = NS(expr=p.sympify(hm))
    return p, F


@contract('C11', 'bsym conc', trials=40, budget=80, bound='1..3 candidates, 1..2 controls, 2 states; all functions arbitrary',
          funcs=['NumericProblem.compile_control', 'NumericProblem.compile_deriv_func', 'NumericProblem.compile_bc', 'NumericProblem.compile_cost', 'compile_control'])
def solver_functions_use_the_minimising_candidate(w):
    NPr = w.get(NP, 'NumericProblem')
    n = w.choice('n', [1, 2, 3]) if w.symbolic else w.rng.randint(1, 5)
    nu = w.choice('nu', [1, 2]) if n < 3 or not w.symbolic else 1
    quads = w.choice('quads', [False, True])
    p, F = problem_with_laws(w, n, nu, quads)
    p.units = []
    fp = NPr(p, local_compiler=p.local_compiler)
    fp.compile_problem()
    y, yf, par, ndp, k = w.arr('y', 2), w.arr('yf', 2), w.arr('p', 1), w.arr('nu', 1), w.arr('k', 2)

    def at(yy):
        base = [yy[0], yy[1], par[0], k[0], k[1]]
        cands = [[F['c%d_%d' % (i, j)](*base) for j in range(nu)] for i in range(n)]
        u = [v for v in fp.compute_u(yy, par, k)]
        return base, cands, u
    base, cands, u = at(y)
    is_min(w, 'compute_u', u, cands, lambda c: F['Ham'](*base, *c))
    base2, cands2, u2 = at(yf)
    is_min(w, 'compute_u at the end', u2, cands2, lambda c: F['Ham'](*base2, *c))
    d = fp.deriv_func(y, par, k)
    for i, s in enumerate(p.states):
        w.ensure_eq('dynamics evaluated with the minimising control', d[i], F['f_' + s.name](*base, *u))
    if quads:
        w.ensure_eq('quadratures evaluated with the minimising control', fp.quad_func(y, par, k)[0], F['h_z'](*base, *u))
        q0, qf = w.arr('q0', 1), w.arr('qf', 1)
        bc = fp.bc_func(y, q0, yf, qf, par, ndp, k)
    else:
        bc = fp.bc_func(y, yf, par, ndp, k)
    w.ensure_eq('one residual per condition', len(bc), 3)
    w.ensure_eq('initial condition uses the control at the start', bc[0], F['b0'](*base, *u, ndp[0]))
    w.ensure_eq('terminal condition uses the control at the end', bc[1], F['b1'](*base2, *u2, ndp[0]))
    w.ensure_eq('terminal condition uses the control at the end', bc[2], F['b2'](*base2, *u2))
    w.ensure_eq('path cost uses the minimising control', fp.path_cost_func(y, par, k), F['L'](*base, *u))


@contract('C11', 'bsym conc', trials=40, budget=80, bound='1..3 candidates, 1..2 controls, 2 nodes; all functions arbitrary',
          funcs=['AlgebraicControlMapper.__init__', 'AlgebraicControlMapper.map', 'AlgebraicControlMapper.inv_map'])
def returned_control_history_uses_the_minimising_candidate(w):
    M = w.get(TM, 'AlgebraicControlMapper')
    n = w.choice('n', [1, 2, 3]) if w.symbolic else w.rng.randint(1, 5)
    nu = w.choice('nu', [1, 2]) if n < 3 or not w.symbolic else 1
    p, F = problem_with_laws(w, n, nu, False)
    # split the two states into a state and its costate
    p.costates = [p.states.pop()]
    m = M(p)
    N = 1 if (w.symbolic and n == 3) else 2 if w.symbolic else w.rng.randint(1, 5)
    s = new_sol(w)
    s.t, s.y, s.dual = w.times('t', N), w.arr('y', N, 1), w.arr('lam', N, 1)
    s.dynamical_parameters, s.const = w.arr('p', 1), w.arr('k', 2)
    t0, y0, l0 = s.t.copy(), s.y.copy(), s.dual.copy()
    r = m.inv_map(s)
    w.ensure('one row per node, one column per control', tuple(np.shape(r.u)) == (N, nu))
    for i in range(N):
        base = [y0[i, 0], l0[i, 0], r.dynamical_parameters[0], r.const[0], r.const[1]]
        cands = [[F['c%d_%d' % (a, b)](*base) for b in range(nu)] for a in range(n)]
        is_min(w, 'returned history', [r.u[i, j] for j in range(nu)], cands, lambda c: F['Ham'](*base, *c))
    w.ensure_eq('states kept', r.y, y0)
    w.ensure_eq('costates kept', r.dual, l0)


@contract('C11', 'bsym conc', trials=20, budget=60, bound='states <=2, controls <=2, control-affine dynamics and quadratic cost with arbitrary functions; fixed multi-candidate problems',
          funcs=['AlgebraicControlLaw.transformation'])
def every_candidate_is_stationary(w):
    Dual, Mom, Alg, pre = w.get(MF, 'Dualize', 'MomentumShift', 'AlgebraicControlLaw', 'make_preprocessor')
    P = w.get(SP, 'Problem')
    kind = w.choice('kind', ['affine', 'affine2', 'brach', 'cubic', 'trig2', 'wells', 'wells2'])
    method = w.choice('method', ['traditional', 'diffyg'])
    if kind in ('affine', 'affine2'):
        p = generic_ocp(w, 2 if kind == 'affine' else 1, 1 if kind == 'affine' else 2, 1, 1, quadratic=True)
    else:
        p = P(name=kind)
        p.independent('t', 's')
        p.constant('g', -9.81, '1')
        if kind == 'brach':
            p.state('x', 'v*cos(theta)', 'm').state('y', 'v*sin(theta)', 'm').state('v', 'g*sin(theta)', 'm/s').control('theta', '1')
            p.set_cost(path='1', initial='0', terminal='0', units='s')
        elif kind == 'cubic':
            p.state('x', 'u', 'm').control('u', '1')
            p.set_cost(path='u**4/4 + u**2 - x*u**3/3', initial='0', terminal='0', units='s')
        elif kind == 'wells':       # a number and two square roots among the candidates
            p.constant('h', 1.5, '1')
            p.state('x', 'g*x', 'm').control('u', '1')
            sg = w.choice('side', ['', '-'])        # stationary at 2 and at plus or minus the root of h (or mirrored)
            p.set_cost(path='u**4/4 - (%s2*u**3/3) - h*u**2/2 + (%s2*h*u) + x' % (sg, sg), initial='0', terminal='0', units='s')
        elif kind == 'wells2':      # candidates that agree in one of the controls
            p.constant('h', 1.5, '1')
            p.state('x', 'a', 'm').state('v', 'g*x', 'm').control('a', '1').control('b', '1')
            path = ['a**2/2', 'b**4/4 + (h - 1)*b**3/3 - h*b**2/2']     # stationary at 0, 1 and -h
            if w.choice('swap', [False, True]):
                path = [e.replace('a', 'c').replace('b', 'a').replace('c', 'b') for e in path]
                p.states[0].eom = 'b'
            p.set_cost(path=' + '.join(path), initial='0', terminal='0', units='s')
        else:
            p.state('x', 'v*cos(a)', 'm').state('v', 'b*g', 'm').control('a', '1').control('b', '1')
            p.set_cost(path='b**2 + 1 + x', initial='0', terminal='0', units='s')
        p.initial_constraint('x', 'm').terminal_constraint('x - 1', 'm')
        p = pre()(p)
    p = Dual(method=method)(Mom()(p))
    o = copy.deepcopy(p)
    out = Alg()(p)
    us = [u.sym for u in o.controls]
    w.ensure('at least one candidate', len(out.control_law) >= 1)
    w.ensure('controls kept', [u.name for u in out.controls] == [u.name for u in o.controls])
    for row in out.control_law:
        w.ensure_eq('one expression per control', len(row), len(us))
        rep = dict(zip(us, row))
        w.ensure('candidates do not mention the controls', not any(sympy.sympify(e).free_symbols & set(us) for e in row))
        for u in us:
            g = o.hamiltonian.expr.diff(u).subs(rep)
            if kind in ('trig2', 'brach', 'cubic', 'wells', 'wells2'):
                v = max(abs(sx.fingerprint(g, s)) for s in range(3))
                w.ensure('gradient of the Hamiltonian vanishes', v < 1e-8, '%s -> %s' % (row, v))
            else:
                w.expr_eq('gradient of the Hamiltonian vanishes', g, 0)
    for grp in ('states', 'costates'):
        for a, b in zip(getattr(out, grp), getattr(o, grp)):
            w.expr_eq('dynamics kept', a.eom, b.eom)
    w.expr_eq('Hamiltonian kept', out.hamiltonian.expr, o.hamiltonian.expr)
    # no lost minimiser: the smallest Hamiltonian over a fine grid of controls is not below the best candidate
    if kind in ('brach', 'wells', 'wells2'):
        free = sorted(o.hamiltonian.expr.free_symbols - set(us), key=str)
        m = 1001 if len(us) == 1 else 101
        ax = [-3.2 + 6.4 * i / (m - 1) for i in range(m)]
        for hv in (0.35, 0.8, 1.4, 2.3):
            pt = {s: 0.3 + 0.11 * i if str(s) != 'h' else hv for i, s in enumerate(free)}
            h = sympy.lambdify(us, o.hamiltonian.expr.subs(pt), 'math')
            best = min(h(*[float(sympy.sympify(e).subs(pt)) for e in r]) for r in out.control_law)
            grid = min(h(*c) for c in itertools.product(*[ax] * len(us)))
            w.ensure('the candidates contain the minimiser', best <= grid + 1e-6, '%s vs %s' % (best, grid))


@contract('C11', 'conc jit', trials=6, budget=60, funcs=['compile_control', 'NumericProblem.compile_control', 'AlgebraicControlMapper.inv_map', 'make_indirect_method', 'CompileProblem.transformation'])
def whole_problem_uses_the_minimiser(w):
    ind, pre, post = w.get(MF, 'make_indirect_method', 'make_preprocessor', 'make_postprocessor')
    P = w.get(SP, 'Problem')
    p = P(name='b')
    p.independent('t', 's').constant('g', -9.81, 'm/s**2').constant('xf', 1, 'm')
    p.state('x', 'v*cos(theta)', 'm').state('y', 'v*sin(theta)', 'm').state('v', 'g*sin(theta)', 'm/s').control('theta', '1')
    p.set_cost(path='1', initial='0', terminal='0', units='s')
    p.initial_constraint('x', 'm').initial_constraint('t', 's').terminal_constraint('x - xf', 'm')
    p.scale(m='x', s='t')
    p = pre()(p)
    method = w.choice('method', ['traditional', 'diffyg'])
    b = post()(ind(copy.deepcopy(p), control_method='algebraic', method=method)(p))
    names = [s.name for s in b.states]
    k = np.array([-9.81, 1.0])
    for _ in range(3):
        y = np.array([w.rng.uniform(-2, 2) for _ in names])
        par = np.array([w.rng.uniform(0.5, 2)])
        v = dict(zip(names, y))
        u = b.functional_problem.compute_u(y, par, k)
        th = float(u[0])
        H = lambda a: 1 + v['_lam_x'] * v['v'] * np.cos(a) + v['_lam_y'] * v['v'] * np.sin(a) + v['_lam_v'] * k[0] * np.sin(a) + v['_lam_t']
        grid = min(H(a) for a in np.linspace(-3.2, 3.2, 1001))
        w.ensure('compiled control minimises the Hamiltonian', H(th) <= grid + 1e-6, '%s vs %s at %s' % (H(th), grid, v))
        d = b.functional_problem.deriv_func(y, par, k)
        w.ensure_eq('dynamics use it', d[names.index('x')], par[0] * v['v'] * np.cos(th))
    N = 3
    s = new_sol(w)
    s.t = np.linspace(0, 1, N)
    s.y = np.array([[w.rng.uniform(-2, 2) for _ in names] for _ in range(N)])
    s.q = np.zeros((N, 0))
    s.dynamical_parameters, s.nondynamical_parameters, s.const = np.array([1.3]), np.zeros(len(b.constraint_parameters)), k
    yy = s.y.copy()
    r = b.inv_map_sol(copy.deepcopy(s))
    for i in range(N):
        v = dict(zip(names, yy[i]))
        H = lambda a: 1 + v['_lam_x'] * v['v'] * np.cos(a) + v['_lam_y'] * v['v'] * np.sin(a) + v['_lam_v'] * k[0] * np.sin(a) + v['_lam_t']
        grid = min(H(a) for a in np.linspace(-3.2, 3.2, 1001))
        w.ensure('returned control minimises the Hamiltonian', H(float(r.u[i, 0])) <= grid + 1e-6)


@contract('C11', 'conc', trials=4, budget=60, funcs=['solve', 'compile_control', 'NumericProblem.compile_control'])
def the_guess_given_to_the_solver_carries_the_minimising_control(w):
    from belv.contracts.c24_declarations import Solver, quiet, BE, GG
    P, solve, gg = w.get(SP, 'Problem'), w.get(BE, 'solve'), w.get(GG, 'guess_generator')
    p = P(name='b')
    p.independent('t', 's').constant('g', -9.81, 'm/s**2').constant('xf', 1, 'm')
    p.state('x', 'v*cos(theta)', 'm').state('y', 'v*sin(theta)', 'm').state('v', 'g*sin(theta)', 'm/s').control('theta', '1')
    p.set_cost(path='1', initial='0', terminal='0', units='s')
    p.initial_constraint('x', 'm').initial_constraint('t', 's').terminal_constraint('x - xf', 'm')
    p.scale(m='x', s='t')
    alg = Solver()
    c = w.real('costate', -1, -0.05)
    g = gg('auto', start=[0.2, 0.3, w.real('v', 0.5, 2)], costate_guess=c, time_integrate=0.5)
    quiet(lambda: solve(ocp=p, method=w.choice('method', ['indirect', 'diffyg']), bvp_algorithm=alg, guess_generator=g, save_sols=False,
                        autoscale=False, optim_options={'control_method': 'algebraic'}))
    s = alg.seen[0]
    w.ensure('one control per node', tuple(np.shape(s.u)) == (len(s.t), 1), str(np.shape(s.u)))
    for i in range(len(s.t)):
        x, y, v, t, lx, ly, lv, lt = s.y[i]
        H = lambda a: lx * v * np.cos(a) + ly * v * np.sin(a) + lv * s.const[0] * np.sin(a)
        w.ensure('control of the guess minimises the Hamiltonian', H(float(s.u[i, 0])) <= min(H(a) for a in np.linspace(-3.2, 3.2, 1001)) + 1e-6)


@contract('C11', 'conc jit', trials=20, budget=40, bound='double-well Hamiltonians with 3 candidates of which one or three are real, in every order; 1..5 nodes',
          funcs=['compile_control', 'NumericProblem.compile_control', 'AlgebraicControlMapper.__init__', 'AlgebraicControlMapper.inv_map'])
def a_candidate_that_is_not_real_is_not_used(w):
    P, NPr, M = w.get(SP, 'Problem'), w.get(NP, 'NumericProblem'), w.get(TM, 'AlgebraicControlMapper')
    laws = w.rng.choice(list(itertools.permutations(['c', 'c - sqrt(x0)', 'c + sqrt(x0)'])))
    ham = '(u - c)**4/4 - x0*(u - c)**2/2'

    def make():
        p = P(name='wells')
        p.independent('t', 's').state('x0', 'x1*u', '1').state('x1', '-u', '1').control('u', '1').constant('c', 0.5, '1')
        p.set_cost(path='0', initial='0', terminal='0', units='1')
        p.initial_constraint('x0', '1').terminal_constraint('x1 - u', '1')
        p.sympify_self()
        p.control_law = [(p.sympify(e),) for e in laws]
        p.hamiltonian = NS(expr=p.sympify(ham))
        p.units = []
        return p
    H = lambda u, x: (u - 0.5) ** 4 / 4 - x * (u - 0.5) ** 2 / 2
    p = make()
    fp = NPr(p, local_compiler=p.local_compiler)
    fp.compile_problem()
    no, k = np.array([]), np.array([0.5])
    N = w.rng.randint(1, 5)
    y = np.array([[w.rng.choice([-1, 1]) * w.rng.uniform(0.1, 2), w.rng.uniform(-1, 1)] for _ in range(N)])
    for i in range(N):
        best = min(H(u, y[i, 0]) for u in [0.5] + ([0.5 - y[i, 0] ** 0.5] if y[i, 0] > 0 else []))
        u = fp.compute_u(y[i], no, k)
        w.ensure('solver: the smallest Hamiltonian among the real candidates', abs(H(u[0], y[i, 0]) - best) < 1e-9, 'order %s at %s: u=%s' % (laws, y[i], u))
        w.ensure_eq('dynamics use it', fp.deriv_func(y[i], no, k)[1], -u[0])
    p = make()
    p.costates = [p.states.pop()]
    s = new_sol(w)
    s.t, s.y, s.dual, s.const = np.arange(N) * 0.1, y[:, :1].copy(), y[:, 1:].copy(), k
    r = M(p).inv_map(s)
    for i in range(N):
        best = min(H(u, y[i, 0]) for u in [0.5] + ([0.5 - y[i, 0] ** 0.5] if y[i, 0] > 0 else []))
        w.ensure('returned history: the smallest Hamiltonian among the real candidates', abs(H(r.u[i, 0], y[i, 0]) - best) < 1e-9, 'order %s at %s: u=%s' % (laws, y[i], r.u[i]))
