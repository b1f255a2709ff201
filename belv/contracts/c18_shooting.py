"""C18: the shooting solver reports convergence only for a solution it really has."""
import copy
import numpy as np
from belv.world import contract, Missing, Discard
from belv.contracts.common import TR
from belv.contracts.c19_collocation import linear_bvp
from belv.contracts.c20_propagate import spec_quads

SH = 'beluga.numeric.bvp_solvers'
F = ['Shooting.solve', 'Shooting.__init__', 'Shooting._wrap_y0', 'Shooting._unwrap_y0', 'Shooting._make_gammas',
     'Shooting._bc_func_multiple_shooting', 'BaseAlgorithm.__init__', 'BaseAlgorithm.set_derivative_function',
     'BaseAlgorithm.set_quadrature_function', 'BaseAlgorithm.set_boundarycondition_function', 'Propagator.__call__', 'reconstruct']
A = ['scipy.integrate.solve_ivp: grid over the span, first state y0, otherwise an arbitrary function of its arguments',
     'scipy.optimize root/fsolve/minimize: return any point and any success flag',
     'numpy.linalg.solve / lstsq, scipy approx_jacobian: return anything', 'scipy.interpolate.interp1d: linear interpolation',
     'scipy.integrate.simpson: an arbitrary function of the samples and the grid']


class Bunch(dict):
    __getattr__ = dict.__getitem__


def havoc(w):
    """optimisers and linear algebra return anything"""
    import belv.terms as T
    cnt = [0]

    def anyvec(n):
        cnt[0] += 1
        return w.arr('any%d' % cnt[0], n)

    def jac(*a, **k):
        return np.array([['jac']], dtype=object)

    def solve(j, r):
        return anyvec(len(r))

    def lstsq(j, r, *a, **k):
        return anyvec(len(r)), None, None, None

    def minimize(fun, x0, *a, **k):
        return Bunch(x=anyvec(len(x0)), success=w.choice('success', [True, False]), fun=w.real('fun'), nit=3, message='', maxcv=w.real('maxcv'))

    def root(fun, x0, *a, **k):
        n = len(x0)
        return Bunch(x=anyvec(n), success=w.choice('success', [True, False]), fun=anyvec(n), message='', nfev=3)

    def fsolve(fun, x0, *a, full_output=0, **k):
        n = len(x0)
        x = anyvec(n)
        if full_output:
            return x, dict(fvec=anyvec(n), nfev=3), w.choice('ier', [1, 5]), ''
        return x
    T.CTX.hooks = dict(approx_jacobian=jac, linalg_solve=solve, linalg_lstsq=lstsq, linalg_cond=lambda *a: w.real('cond'),
                       minimize=minimize, root=root, fsolve=fsolve)
    T.CTX.flow_uniform = True
    T.CTX.opaque_norm = True        # only the stated lemma on norms is used


ALG = ['Armijo', 'fsolve', 'hybr', 'SLSQP', 'BFGS']


def setup(w, quads, arcs, n_hi=2, p_hi=1):
    Tr = w.get(TR, 'Trajectory')
    n = w.dim('n', 1, n_hi)
    nq = w.dim('nq', 1, 1) if quads else 0
    nd, nn = w.dim('nd', 0, p_hi), w.dim('nn', 0, p_hi)
    nk = 1
    N = w.dim('N', 2, 2)
    f, q = w.fn('f', out=n), (w.fn('h', out=nq) if quads else None)
    bc = w.fn('bc', out=n + nq + nd + nn)
    g = Tr(w.times('t', N), w.arr('y', N, n))
    if quads:
        g.q = w.arr('q', N, nq)
    g.dynamical_parameters, g.nondynamical_parameters = w.arr('pd', nd), w.arr('pn', nn)
    g.const = w.arr('k', nk)
    return g, n, nq, nd, nn, nk, N, f, q, bc


def final_arcs(w, sol, arcs):
    """the propagations that make up the returned trajectory: the last group of `arcs` consecutive ones whose
    stitched nodes are the returned ones"""
    import belv.terms as T
    log = getattr(T.CTX, 'ivp_log', [])
    if len(log) < arcs:
        raise Missing('solve_ivp used %d times' % len(log))
    same = lambda a, b: np.shape(a) == np.shape(b) and all(x is y or (hasattr(x, 'z') and hasattr(y, 'z') and x.z.eq(y.z))
                                                          for x, y in zip(np.ravel(a), np.ravel(b)))
    for e in range(len(log), arcs - 1, -1):
        grp = log[e - arcs:e]
        Y = np.concatenate([grp[0]['result'].y.T] + [r['result'].y.T[1:] for r in grp[1:]])
        if same(Y, sol.y):
            return grp
    return log[-arcs:]


def check(w, g0, sol, success, n, nq, arcs, f, q, bc, tol):
    """g0: values of the guess; sol: returned trajectory"""
    k = g0['k']
    pd, pn = sol.dynamical_parameters, sol.nondynamical_parameters
    grp = final_arcs(w, sol, arcs)
    Y = np.concatenate([grp[0]['result'].y.T] + [r['result'].y.T[1:] for r in grp[1:]])
    Tm = np.concatenate([grp[0]['result'].t] + [r['result'].t[1:] for r in grp[1:]])
    w.ensure_eq('nodes are the arcs joined', sol.y, Y)
    w.ensure_eq('times are the arcs joined', sol.t, Tm)
    w.ensure_eq('starts at the start of the guess', sol.t[0], g0['t'][0])
    w.ensure_eq('ends at the end of the guess', sol.t[-1], g0['t'][-1])
    for i, r in enumerate(grp):
        w.ensure_eq('dynamics of arc', r['rhs'], f(r['probe'], pd, k))
        if i:
            w.ensure_eq('next arc starts where the last one ends', r['t0'], grp[i - 1]['tf'])
    qs = None
    if nq:
        qs, start = [], sol.q[0]
        for i, r in enumerate(grp):
            yy, tt = r['result'].y.T, r['result'].t
            qi = spec_quads(w, q, yy, tt, start, pd, k, len(tt), nq)
            qs.append(qi if i == 0 else qi[1:])
            start = qi[-1]
        w.ensure_eq('quadratures along the trajectory', sol.q, np.concatenate(qs))
    w.ensure('flag', bool(sol.converged) == bool(success))
    if bool(sol.converged):
        y0, yf = grp[0]['result'].y.T[0], grp[-1]['result'].y.T[-1]
        if nq:
            res = list(bc(y0, qs[0][0], yf, qs[-1][-1], pd, pn, k))
        else:
            res = list(bc(y0, yf, pd, pn, k))
        for i in range(arcs - 1):
            res += list(grp[i]['result'].y.T[-1] - grp[i + 1]['result'].y.T[0])
        for i, r in enumerate(res):
            w.ensure('residual within the tolerance', (r <= tol) & (-r <= tol))


def kept(w, g, g0, arrays):
    for nm, a, cur in zip(('t', 'y', 'q', 'pd', 'pn', 'k'), arrays,
                          (g.t, g.y, g.q, g.dynamical_parameters, g.nondynamical_parameters, g.const)):
        w.ensure('guess.%s is the same array' % nm, cur is a)
        w.ensure_eq('guess.%s kept' % nm, cur, g0[nm])


def values(w, g):
    a = (g.t, g.y, g.q, g.dynamical_parameters, g.nondynamical_parameters, g.const)
    return dict(zip(('t', 'y', 'q', 'pd', 'pn', 'k'), [w.snapshot(x) for x in a])), a


def run(w, alg, arcs, quads, iters=0, n_hi=2, p_hi=1):
    S = w.get(SH, 'Shooting')
    havoc(w)
    g, n, nq, nd, nn, nk, N, f, q, bc = setup(w, quads, arcs, n_hi, p_hi)
    tol = w.real('tol', 0, 1)
    s = S(f, q, bc, algorithm=alg, num_arcs=arcs, max_iterations=iters, tolerance=tol)
    g0, arrays = values(w, g)
    try:
        out = s.solve(g)
    finally:
        kept(w, g, g0, arrays)
    check(w, g0, out['sol'], out['success'], n, nq, arcs, f, q, bc, tol)
    w.ensure_eq('constants', out['sol'].const, g0['k'])
    return s, g, g0


@contract('C18', 'bsym', funcs=F, budget=60, assumes=A, bound='one arc, states <=2, quadratures <=1, parameters <=1+1')
def converged_means_residual_within_tolerance_one_arc(w):
    run(w, w.choice('algorithm', ALG[1:]), 1, w.choice('quadratures', [False, True]))


@contract('C18', 'bsym', funcs=F, budget=60, assumes=A, bound='two arcs, states <=2, quadratures <=1, parameters <=1+1')
def converged_means_residual_within_tolerance_two_arcs(w):
    run(w, w.choice('algorithm', ALG[1:4:2]), 2, w.choice('quadratures', [False, True]))


@contract('C18', 'bsym', funcs=F, budget=60, assumes=A, bound='two arcs, states <=2, quadratures <=1, parameters <=1+1')
def converged_means_residual_within_tolerance_two_arcs_root(w):
    run(w, w.choice('algorithm', ALG[2::2]), 2, w.choice('quadratures', [False, True]))


@contract('C18', 'bsym', funcs=F, budget=60, assumes=A, bound='one arc, states <=2, no quadratures, parameters <=1+1, one Newton step')
def armijo_one_arc(w):
    run(w, 'Armijo', 1, False)


@contract('C18', 'bsym', funcs=F, budget=60, assumes=A, bound='one arc, one state, one quadrature, parameters <=1+1, one Newton step')
def armijo_quadratures(w):
    run(w, 'Armijo', 1, True, n_hi=1)


@contract('C18', 'bsym', funcs=F, budget=60, assumes=A, bound='two arcs, one state, no quadrature, parameters <=1+1, one Newton step')
def armijo_two_arcs(w):
    run(w, 'Armijo', 2, False, n_hi=1)


@contract('C18', 'bsym', funcs=F, budget=60, assumes=A, bound='two arcs, one state, one quadrature, no parameters, one Newton step')
def armijo_two_arcs_quadratures(w):
    run(w, 'Armijo', 2, True, n_hi=1, p_hi=0)


@contract('C18', 'bsym', funcs=F, budget=60, assumes=A, bound='three arcs, one state, quadratures <=1, parameters <=1+1')
def converged_means_residual_within_tolerance_three_arcs(w):
    run(w, w.choice('algorithm', ['fsolve']), 3, w.choice('quadratures', [False, True]), n_hi=1)


@contract('C18', 'bsym', funcs=F, budget=60, assumes=A, bound='one arc, one state, no parameters, two Newton steps')
def converged_after_further_steps(w):
    run(w, 'Armijo', 1, False, iters=1, n_hi=1, p_hi=0)


@contract('C18', 'bsym', funcs=F, budget=60, assumes=A, bound='one or two arcs, one state')
def new_functions_replace_the_old_ones(w):
    import belv.terms as T
    s, g, g0 = run(w, 'fsolve', w.choice('arcs', [1, 2]), False, n_hi=1)
    n = len(g.y[0])
    nb = n + len(g.dynamical_parameters) + len(g.nondynamical_parameters)
    f2, bc2 = w.fn('f2', out=n), w.fn('bc2', out=nb)
    s.set_derivative_function(f2)
    s.set_boundarycondition_function(bc2)
    T.CTX.ivp_log = []
    out = s.solve(g)
    check(w, g0, out['sol'], out['success'], n, 0, s.num_arcs, f2, None, bc2, s.tolerance)


@contract('C18', 'bsym', funcs=['Shooting._wrap_y0', 'Shooting._unwrap_y0'], budget=60,
          bound='arcs <=3, states <=3, quadratures <=2, parameters <=2+2')
def packing_is_exact(w):
    S, Tr = w.get(SH, 'Shooting'), w.get(TR, 'Trajectory')
    w.attr(S, '_wrap_y0', '_unwrap_y0')
    arcs, n, nq = w.dim('arcs', 1, 3), w.dim('n', 1, 3), w.dim('nq', 0, 2)
    pd, pn = w.arr('pd', w.dim('nd', 0, 2)), w.arr('pn', w.dim('nn', 0, 2))
    gs = [Tr(w.times('t%d' % i, 2), w.arr('y%d' % i, 2, n), w.arr('q%d' % i, 2, nq)) for i in range(arcs)]
    x = S._wrap_y0(gs, pd, pn)
    w.ensure_eq('size', len(x), arcs * n + nq + len(pd) + len(pn))
    y, q, d, e = S._unwrap_y0(x, n, nq, len(pd), arcs)
    for i in range(arcs):
        w.ensure_eq('start of every arc', y[i], gs[i].y[0])
    w.ensure_eq('quadratures', q, gs[0].q[0])
    w.ensure_eq('dynamical parameters', d, pd)
    w.ensure_eq('boundary parameters', e, pn)


# -- genuine scipy -----------------------------------------------------------
ALLALG = ['Armijo', 'fsolve', 'hybr', 'lm', 'broyden1', 'df-sane', 'SLSQP', 'COBYLA', 'BFGS', 'L-BFGS-B', 'Nelder-Mead', 'Powell', 'CG', 'TNC',
          'trust-constr', 'krylov']
SURE = ('Armijo', 'fsolve', 'hybr', 'lm')


def residual(w, s, sol, f, q, bc, nq):
    """residual of the returned start values and parameters by propagating again over the returned interval"""
    P = w.get('beluga.numeric.ivp_solvers', 'Propagator')
    g = P()(f, q, [sol.t[0], sol.t[-1]], sol.y[0], sol.q[0] if nq else np.array([]), sol.dynamical_parameters, sol.const)
    a = (sol.dynamical_parameters, sol.nondynamical_parameters, sol.const)
    if nq:
        return np.asarray(bc(g.y[0], g.q[0], g.y[-1], g.q[-1], *a))
    return np.asarray(bc(g.y[0], g.y[-1], *a))


class InOrder:
    """what a process pool does, without the processes: the images in order"""

    def map(self, f, xs):
        return [f(x) for x in xs]


@contract('C18', 'conc', funcs=F + ['Shooting._make_gammas_parallel'], trials=3, budget=40, bound='pendulum with a quadrature, a genuine pool of two processes')
def a_process_pool_changes_nothing(w):
    import pathos
    S, Tr = w.get(SH, 'Shooting'), w.get(TR, 'Trajectory')
    b, nq, arcs = w.real('b', 0.4, 1.0), w.choice('nq', [0, 1]), w.choice('arcs', [1, 2, 3])
    f = lambda y, p, k: np.array([y[1], -k[0] * np.sin(y[0])])
    q = lambda y, p, k: np.array([y[0] ** 2])
    if nq:
        bc = lambda ya, qa, yb, qb, p, pn, k: np.array([ya[0] - 0.3, yb[0] - b, qa[0] - 1])
    else:
        bc = lambda ya, yb, p, pn, k: np.array([ya[0] - 0.3, yb[0] - b])
    t = np.linspace(0, 1, 4)

    def guess():
        g = Tr(t.copy(), np.outer(np.linspace(0.3, b, 4), [1.0, 0.0]) + [[0, b - 0.3]])
        if nq:
            g.q = np.ones((4, 1))
        g.const = np.array([0.7])
        return g
    alg = w.choice('algorithm', ['Armijo', 'fsolve'])
    mk = lambda: S(f, q if nq else None, bc, algorithm=alg, num_arcs=arcs)
    one = mk().solve(guess())
    for attempt in range(3):        # worker processes may die for reasons of their own
        try:
            pool = pathos.multiprocessing.Pool(processes=2)
        except OSError:         # no processes to be had here
            raise Discard()
        try:
            two = mk().solve(guess(), pool=pool)
            break
        except Exception:
            if attempt == 2:
                raise
        finally:
            pool.terminate()
            pool.join()
    w.ensure('same outcome', bool(one['success']) == bool(two['success']))
    for a in ('t', 'y', 'q', 'dynamical_parameters', 'nondynamical_parameters'):
        w.ensure_eq('same solution with a pool: ' + a, getattr(two['sol'], a), getattr(one['sol'], a))


@contract('C18', 'conc', funcs=F, trials=40, budget=70, bound='linear problems, states <=3, quadratures <=2, parameters <=2+2, arcs <=3, 16 algorithms')
def linear_problems(w):
    S, Tr = w.get(SH, 'Shooting'), w.get(TR, 'Trajectory')
    n, nq, nd, nn = w.dim('n', 1, 3), w.dim('nq', 0, 2), w.dim('nd', 0, 2), w.dim('nn', 0, 2)
    f, q, bc, m, flow, exact = linear_bvp(w, n, nq, nd, nn)
    T = w.real('T', 0.5, 1.5)
    x = exact(T)
    N = w.dim('N', 2, 5)
    t0 = w.choice('t0', [0.0, 0.7])
    t = t0 + np.linspace(0, T, N)
    g = Tr(t, w.arr('y', N, n, lo=-1, hi=1))
    if nq:
        g.q = w.arr('q', N, nq, lo=-1, hi=1)
    g.dynamical_parameters, g.nondynamical_parameters = w.arr('pd', nd, lo=-1, hi=1), w.arr('pn', nn, lo=-1, hi=1)
    g.const = m['k'].copy()
    arcs = w.choice('arcs', [1, 1, 2, 3])
    alg = w.choice('algorithm', list(SURE) * 4 + ALLALG)
    near = w.choice('start near the solution', [True, False])
    if near or alg not in SURE:
        g.y = np.array([(flow(tt - t0) @ np.concatenate((x[:n + nq + nd], [1.0])))[:n] for tt in t]) + 1e-3 * g.y
        g.dynamical_parameters = x[n + nq:n + nq + nd] + 1e-3 * g.dynamical_parameters
        g.nondynamical_parameters = x[n + nq + nd:] + 1e-3 * g.nondynamical_parameters
        if nq:
            g.q = x[n:n + nq] + 1e-3 * g.q
    s = S(f, q if nq else None, bc, algorithm=alg, num_arcs=arcs, max_iterations=30)
    old = copy.deepcopy(g.__dict__)
    kw = {'pool': InOrder()} if w.choice('pool', [False, False, True]) else {}
    try:
        out = s.solve(g, **kw)
    except Exception:
        if alg in SURE:
            raise
        raise Discard()
    sol = out['sol']
    for nm in ('t', 'y', 'q', 'dynamical_parameters', 'nondynamical_parameters', 'const'):
        w.ensure_eq('guess kept: ' + nm, getattr(g, nm), old[nm], tol=1e-300)
    w.ensure('flags agree', bool(sol.converged) == bool(out['success']))
    w.ensure('shapes', sol.y.shape == (len(sol.t), n) and (nq == 0 or sol.q.shape == (len(sol.t), nq))
             and sol.dynamical_parameters.shape == (nd,) and sol.nondynamical_parameters.shape == (nn,))
    w.ensure_eq('interval', (sol.t[0], sol.t[-1]), (t[0], t[-1]))
    w.ensure('no duplicated nodes', bool((np.diff(sol.t) > 0).all()))
    if alg in SURE:
        w.ensure('a solvable linear problem converges', bool(sol.converged), out['message'])
    if not sol.converged:
        return
    r = residual(w, s, sol, f, q if nq else None, bc, nq)
    slack = 1.05 if arcs == 1 else 30.0        # several arcs: joints within the tolerance add up
    w.ensure('residual within the tolerance', np.linalg.norm(r) <= s.tolerance * slack + (0 if arcs == 1 else 1e-4), 'residual %g with %s' % (np.linalg.norm(r), alg))
    z0 = np.concatenate((sol.y[0], sol.q[0] if nq else [], sol.dynamical_parameters, [1.0]))
    for i in range(len(sol.t)):
        z = flow(sol.t[i] - sol.t[0]) @ z0
        w.ensure_eq('nodes follow the dynamics', sol.y[i], z[:n], tol=2e-3)
        if nq:
            w.ensure_eq('quadratures follow the rates', sol.q[i], z[n:n + nq], tol=2e-3)
    w.ensure_eq('constants', sol.const, old['const'])
    # new functions on the same object
    m2 = w.real('shift', 0.2, 1.0)
    if nq:
        bc2 = lambda ya, qa, yb, qb, p, pn, k: bc(ya, qa, yb, qb, p, pn, k) + m2
    else:
        bc2 = lambda ya, yb, p, pn, k: bc(ya, yb, p, pn, k) + m2
    s.set_boundarycondition_function(bc2)
    f2 = lambda y, p, k: -f(y, p, k)
    s.set_derivative_function(f2)
    if alg in SURE:
        out = s.solve(g)
        if out['sol'].converged:
            r = residual(w, s, out['sol'], f2, q if nq else None, bc2, nq)
            w.ensure('new functions: residual within the tolerance', np.linalg.norm(r) <= s.tolerance * slack + (0 if arcs == 1 else 1e-4), '%g' % np.linalg.norm(r))


@contract('C18', 'conc', funcs=F, trials=40, budget=30, bound='infeasible conditions, 16 algorithms')
def unsolvable_problems_are_not_converged(w):
    S, Tr = w.get(SH, 'Shooting'), w.get(TR, 'Trajectory')
    a = w.real('a', 0.01, 2)
    f = lambda y, p, k: np.array([y[1], 0.0])
    bc = lambda ya, yb, p, pn, k: np.array([ya[1], yb[1] - a])     # contradicts y'' = 0
    t = np.linspace(0, 1, 3)
    g = Tr(t, w.arr('y', 3, 2, lo=-1, hi=1))
    alg = w.choice('algorithm', ALLALG)
    try:
        out = S(f, None, bc, algorithm=alg, num_arcs=w.choice('arcs', [1, 2]), max_iterations=10).solve(g)
    except Exception:
        raise Discard()
    w.ensure('an unsolvable problem is not reported converged', not out['sol'].converged and not out['success'], alg)


@contract('C18', 'conc', funcs=F, trials=40, budget=40, bound='pendulum, random end angles and tolerances')
def a_nonlinear_problem(w):
    S, Tr = w.get(SH, 'Shooting'), w.get(TR, 'Trajectory')
    b = w.real('b', -1.2, 1.2)
    f = lambda y, p, k: np.array([y[1], -k[0] * np.sin(y[0])])
    bc = lambda ya, yb, p, pn, k: np.array([ya[0] - 0.3, yb[0] - b])
    t = np.linspace(0, w.real('T', 0.5, 1.5), 4)
    g = Tr(t, w.arr('y', 4, 2, lo=-1, hi=1))
    g.const = np.array([w.real('k0', 0.2, 3)])
    tol = w.choice('tol', [1e-2, 1e-4, 1e-7])
    arcs = w.choice('arcs', [1, 1, 2])
    s = S(f, None, bc, algorithm=w.choice('algorithm', ['Armijo', 'fsolve', 'hybr', 'L-BFGS-B', 'SLSQP']), tolerance=tol, num_arcs=arcs,
          max_iterations=w.choice('iterations', [1, 3, 40]))
    try:
        out = s.solve(g)
    except RuntimeError:
        raise Discard()
    if out['sol'].converged:
        r = residual(w, s, out['sol'], f, None, bc, 0)
        w.ensure('residual within the tolerance', np.linalg.norm(r) <= (tol * 1.0001 if arcs == 1 else 20 * tol + 1e-5), '%g tol %g' % (np.linalg.norm(r), tol))
