"""C19: the collocation solver poses exactly the given problem and returns it unpacked."""
import sys
import numpy as np
from belv.world import contract, Missing, Discard
from belv.contracts.common import TR

SPM = 'beluga.numeric.bvp_solvers'
F = ['SPBVP.solve', 'SPBVP.__init__', 'BaseAlgorithm.__init__', 'BaseAlgorithm.set_derivative_function',
     'BaseAlgorithm.set_quadrature_function', 'BaseAlgorithm.set_boundarycondition_function',
     'BaseAlgorithm.set_derivative_jacobian', 'BaseAlgorithm.set_boundarycondition_jacobian']
A = ['scipy.integrate.solve_bvp: any mesh, values and success flag']


def capture(w, result):
    """solve_bvp replaced by a recorder that returns `result`"""
    log = []

    def rec(fun, bc, x, y, p=None, S=None, fun_jac=None, bc_jac=None, **kw):
        log.append(dict(fun=fun, bc=bc, x=x, y=y, p=p, S=S, fun_jac=fun_jac, bc_jac=bc_jac, kw=kw))
        return result
    if w.symbolic:
        import belv.terms as T
        T.CTX.hooks = {'solve_bvp': rec}
    else:
        patch_real(rec)
    return log


REAL = []


def patch_real(rec):
    """bounded modes: every reference of the beluga modules to scipy's solve_bvp is rebound (None: the genuine one again)"""
    import scipy.integrate
    if not REAL:
        REAL.append(scipy.integrate.solve_bvp)
    old, new = scipy.integrate.solve_bvp, rec or REAL[0]
    scipy.integrate.solve_bvp = new
    for nm, m in list(sys.modules.items()):
        if m is not None and (nm + '.').startswith('beluga.'):
            for k, v in list(vars(m).items()):
                if v is old or v is REAL[0]:
                    setattr(m, k, new)


class Bunch(dict):
    __getattr__ = dict.__getitem__


def pose(w, quads):
    S, Tr = w.get(SPM, 'SPBVP'), w.get(TR, 'Trajectory')
    n = w.dim('n', 1, 2)
    nq = w.dim('nq', 1, 2) if quads else 0
    nd, nn = w.dim('nd', 0, 2, split=(0,)), w.dim('nn', 0, 2, split=(0,))
    nk = w.dim('nk', 0, 1)
    N = w.dim('N', 2, 3)
    f, q, bc = w.fn('f', out=n), w.fn('h', out=nq), w.fn('bc', out=n + nq + nd + nn)
    g = Tr(w.times('t', N), w.arr('y', N, n))
    if quads:
        g.q = w.arr('q', N, nq)
    g.dynamical_parameters, g.nondynamical_parameters = w.arr('pd', nd), w.arr('pn', nn)
    g.const = w.arr('k', nk)
    return S, g, n, nq, nd, nn, N, f, q, bc


def mesh(w, n, nq, nd, nn):
    M = w.dim('M', 2, 3)
    succ = w.choice('success', [True, False])
    nodyn = not isinstance(nd, int) or not isinstance(nn, int)
    P = w.arr('P', nd + nn)
    res = Bunch(x=w.times('x', M), y=w.arr('Y', n + nq, M), p=P, success=succ, message='msg', rms_residuals=w.arr('rms', M), niter=7,
                status=0, sol=None, yp=None)
    if w.is_true(nd + nn == 0):
        res['p'] = None
    return res, M, P


def hcat(w, a, b):
    if w.mode == 'sym':
        from belv.npshim import SHIM
        return SHIM.hstack((a, b))
    return np.hstack((a, b))


def zeros(w, n, m):
    if w.mode == 'sym':
        from belv.npshim import SHIM
        return SHIM.zeros((n, m))
    return np.zeros((n, m))


def call(fn, *a, k0):
    """scipy calls without the parameter vector when there are none"""
    return fn(*a[:-1]) if k0 else fn(*a)


@contract('C19', 'sym bsym conc', trials=60, funcs=F, budget=80, assumes=A, bound='states <=2, quadratures <=2, parameters <=2+2, nodes <=3')
def the_posed_problem_is_the_given_one(w):
    quads = w.choice('quadratures', [True, False])
    S, g, n, nq, nd, nn, N, f, q, bc = pose(w, quads)
    res, M, P = mesh(w, n, nq, nd, nn)
    log = capture(w, res)
    s = S(f, q, bc)
    t, y, k = w.snapshot(g.t), w.snapshot(g.y), w.snapshot(g.const)
    qs = w.snapshot(g.q) if quads else None
    pd, pn = w.snapshot(g.dynamical_parameters), w.snapshot(g.nondynamical_parameters)
    out = s.solve(g)
    if len(log) != 1:
        raise Missing('solve_bvp called %d times' % len(log))
    c = log[0]
    k0 = res['p'] is None
    w.ensure_eq('initial mesh is the guess mesh', c['x'], t)
    w.ensure_eq('initial states', c['y'][:n], y.T)
    if quads:
        w.ensure_eq('initial quadratures', c['y'][n:], qs.T)
    if not k0:
        w.ensure_eq('parameters: dynamical first', c['p'][:nd], pd)
        w.ensure_eq('parameters: then boundary', c['p'][nd:], pn)
    w.ensure('no singular term', c['S'] is None)
    # the system at any mesh
    m = w.dim('m', 1, 2)
    X, Z, V = w.arr('X', m), w.arr('Z', n + nq, m), w.arr('V', nd + nn)
    r = call(c['fun'], X, Z, V, k0=k0)
    j = w.int_in('j', 0, m - 1)
    w.ensure_eq('dynamics at every node', r[:n, j], f(Z[:n, j], V[:nd], k))
    if quads:
        w.ensure_eq('quadrature rates at every node', r[n:, j], q(Z[:n, j], V[:nd], k))
    w.ensure_eq('one column per node', r.shape[1], m)
    w.ensure_eq('one row per component', r.shape[0], n + nq)
    a, b = w.arr('za', n + nq), w.arr('zb', n + nq)
    rb = call(c['bc'], a, b, V, k0=k0)
    if quads:
        w.ensure_eq('boundary conditions', rb, bc(a[:n], a[n:], b[:n], b[n:], V[:nd], V[nd:], k))
    else:
        w.ensure_eq('boundary conditions', rb, bc(a, b, V[:nd], V[nd:], k))


@contract('C19', 'sym bsym conc', trials=60, funcs=F, budget=80, assumes=A, bound='states <=2, quadratures <=2, parameters <=2+2, nodes <=3')
def the_solution_is_returned_unpacked(w):
    quads = w.choice('quadratures', [True, False])
    S, g, n, nq, nd, nn, N, f, q, bc = pose(w, quads)
    res, M, P = mesh(w, n, nq, nd, nn)
    capture(w, res)
    keep = [w.snapshot(z) for z in (g.t, g.y, g.q, g.dynamical_parameters, g.nondynamical_parameters, g.const)]
    arrays = (g.t, g.y, g.q, g.dynamical_parameters, g.nondynamical_parameters, g.const)
    out = S(f, q, bc).solve(g)
    sol = out['sol']
    w.ensure_eq('mesh', sol.t, res['x'])
    w.ensure_eq('states', sol.y, res['y'].T[:, :n])
    if quads:
        w.ensure_eq('quadratures', sol.q, res['y'].T[:, n:])
    else:
        w.ensure('no quadratures', w.mode == 'sym' or np.size(sol.q) == 0)
    w.ensure_eq('dynamical parameters', sol.dynamical_parameters, P[:nd])
    w.ensure_eq('boundary parameters', sol.nondynamical_parameters, P[nd:])
    w.ensure_eq('constants of the guess', sol.const, keep[5])
    w.ensure('converged is the success flag', bool(sol.converged) == res['success'] and bool(out['success']) == res['success'])
    w.ensure('the guess is another object', sol is not g)
    for nm, cur, arr, old in zip(['t', 'y', 'q', 'pd', 'pn', 'k'],
                                 (g.t, g.y, g.q, g.dynamical_parameters, g.nondynamical_parameters, g.const), arrays, keep):
        w.ensure('guess.%s: same array' % nm, cur is arr)
        w.ensure_eq('guess.%s kept' % nm, cur, old)


@contract('C19', 'sym bsym conc', trials=60, funcs=F, budget=80, assumes=A, bound='states <=2, quadratures <=2, parameters <=2+2, nodes <=2')
def jacobians_belong_to_the_same_system(w):
    quads = w.choice('quadratures', [True, False])
    S, g, n, nq, nd, nn, N, f, q, bc = pose(w, quads)
    res, M, P = mesh(w, n, nq, nd, nn)
    log = capture(w, res)
    k = w.snapshot(g.const)
    nb = n + nq + nd + nn
    dfy, dfp = w.fn('dfy', out=(n, n)), w.fn('dfp', out=(n, nd))
    J = {c: w.fn('J' + c, out=(nb, m)) for c, m in (('ya', n), ('yb', n), ('p', nd + nn), ('qa', nq), ('qb', nq))}

    def fj(y, p, kk):
        return dfy(y, p, kk), dfp(y, p, kk)

    def bj(*a):
        o = [J['ya'](*a), J['yb'](*a), J['p'](*a)]
        if quads:
            o += [J['qa'](*a), J['qb'](*a)]
        return tuple(o)
    s = S(f, q, bc)
    s.set_derivative_jacobian(fj)
    s.set_boundarycondition_jacobian(bj)
    s.solve(g)
    if len(log) != 1:
        raise Missing('solve_bvp called %d times' % len(log))
    c = log[0]
    k0 = res['p'] is None
    a, b, V = w.arr('za', n + nq), w.arr('zb', n + nq), w.arr('V', nd + nn)
    if c['bc_jac'] is not None:
        r = call(c['bc_jac'], a, b, V, k0=k0)
        w.ensure('as many Jacobians as the solver unpacks', len(r) == (2 if k0 else 3))
        args = (a[:n], a[n:], b[:n], b[n:], V[:nd], V[nd:], k) if quads else (a, b, V[:nd], V[nd:], k)
        o = bj(*args)
        w.ensure_eq('d bc / d ya', r[0], hcat(w, o[0], o[3]) if quads else o[0])
        w.ensure_eq('d bc / d yb', r[1], hcat(w, o[1], o[4]) if quads else o[1])
        if not k0:
            w.ensure_eq('d bc / d p', r[2], o[2])
    if c['fun_jac'] is not None:
        if quads:
            w.ensure('an explicit Jacobian would have to cover the quadratures', False)
            return
        m = w.dim('m', 1, 2)
        X, Z = w.arr('X', m), w.arr('Z', n, m)
        r = call(c['fun_jac'], X, Z, V, k0=k0)
        if k0:
            r = (r,)
        j = w.int_in('j', 0, m - 1)
        o = fj(Z[:, j], V[:nd], k)
        w.ensure_eq('d f / d y at node', r[0][:, :, j], o[0])
        if not k0:
            w.ensure_eq('d f / d p at node', r[1][:, :nd, j], o[1])
            w.ensure_eq('boundary parameters do not enter the dynamics', r[1][:, nd:, j], zeros(w, n, nn))


# -- genuine scipy -----------------------------------------------------------
def linear_bvp(w, n, nq, nd, nn):
    """y' = A y + B p + c (B p only for dynamical ones), q' = C y; conditions with a unique solution"""
    A = w.arr('A', n, n, lo=-1, hi=1)
    B = w.arr('B', n, nd, lo=-1, hi=1)
    C = w.arr('C', nq, n, lo=-1, hi=1)
    k = w.arr('k', n, lo=-1, hi=1)
    nb = n + nq + nd + nn
    G = w.arr('G', nb, n, lo=-1, hi=1)
    H = w.arr('H', nb, n, lo=-1, hi=1)
    Gq, Hq, E, D = w.arr('Gq', nb, nq, lo=-1, hi=1), w.arr('Hq', nb, nq, lo=-1, hi=1), w.arr('E', nb, nn, lo=-1, hi=1), w.arr('D', nb, nd, lo=-1, hi=1)
    r = w.arr('r', nb, lo=-1, hi=1)
    f = lambda y, p, kk: A @ y + B @ p + kk
    q = lambda y, p, kk: C @ y
    if nq:
        bc = lambda ya, qa, yb, qb, p, pn, kk: G @ ya + H @ yb + Gq @ qa + Hq @ qb + D @ p + E @ pn - r
    else:
        bc = lambda ya, yb, p, pn, kk: G @ ya + H @ yb + D @ p + E @ pn - r
    # exact: extended linear flow of z = (y, q, p, 1)
    from scipy.linalg import expm
    m = n + nq + nd + 1
    M = np.zeros((m, m))
    M[:n, :n], M[:n, n + nq:n + nq + nd], M[:n, -1] = A, B, k
    M[n:n + nq, :n] = C
    mats = dict(A=A, B=B, C=C, G=G, H=H, Gq=Gq, Hq=Hq, E=E, D=D, r=r, k=k)

    def flow(s):
        return expm(M * s)

    def solve(T):
        P = flow(T)
        L = np.zeros((nb, n + nq + nd + nn))
        L[:, :n] = G + H @ P[:n, :n] + Hq @ P[n:n + nq, :n]
        L[:, n:n + nq] = Gq + Hq
        L[:, n + nq:n + nq + nd] = D + H @ P[:n, n + nq:n + nq + nd] + Hq @ P[n:n + nq, n + nq:n + nq + nd]
        L[:, n + nq + nd:] = E
        rhs = r - H @ P[:n, -1] - Hq @ P[n:n + nq, -1]
        if np.linalg.cond(L) > 80:
            raise Discard()
        return np.linalg.solve(L, rhs)
    return f, q, bc, mats, flow, solve


@contract('C19', 'conc', funcs=F, trials=40, budget=60, bound='linear problems, states <=3, quadratures <=2, parameters <=2+2, with and without Jacobians')
def linear_problems_are_solved(w):
    patch_real(None)
    S, Tr = w.get(SPM, 'SPBVP'), w.get(TR, 'Trajectory')
    n, nq, nd, nn = w.dim('n', 1, 3), w.dim('nq', 0, 2), w.dim('nd', 0, 2), w.dim('nn', 0, 2)
    f, q, bc, m, flow, exact = linear_bvp(w, n, nq, nd, nn)
    T = w.real('T', 0.5, 1.5)
    x = exact(T)
    N = w.dim('N', 4, 9)
    t = np.linspace(0, T, N)
    g = Tr(t, w.arr('y', N, n, lo=-1, hi=1))
    if nq:
        g.q = w.arr('q', N, nq, lo=-1, hi=1)
    g.dynamical_parameters, g.nondynamical_parameters = w.arr('pd', nd, lo=-1, hi=1), w.arr('pn', nn, lo=-1, hi=1)
    g.const = m['k'].copy()
    jac = w.choice('jacobians', [False, True])
    s = S(f, q if nq else None, bc)
    if jac:
        s.set_derivative_jacobian(lambda y, p, kk: (m['A'].copy(), m['B'].copy()))
        par = np.hstack((m['D'], m['E']))
        if nq:
            s.set_boundarycondition_jacobian(lambda *a: (m['G'], m['H'], par, m['Gq'], m['Hq']))
        else:
            s.set_boundarycondition_jacobian(lambda *a: (m['G'], m['H'], par))
    import copy
    old = copy.deepcopy(g.__dict__)
    out = s.solve(g)
    sol = out['sol']
    w.ensure('a solvable linear problem converges', bool(sol.converged) and bool(out['success']), out['message'])
    w.ensure('shapes', sol.y.shape == (len(sol.t), n) and (nq == 0 or sol.q.shape == (len(sol.t), nq))
             and sol.dynamical_parameters.shape == (nd,) and sol.nondynamical_parameters.shape == (nn,),
             '%s %s %s' % (sol.y.shape, sol.q.shape, sol.dynamical_parameters.shape))
    tol = 5e-2
    z0 = np.concatenate((x[:n + nq + nd], [1.0]))
    for i in (0, len(sol.t) // 2, len(sol.t) - 1):
        z = flow(sol.t[i]) @ z0
        w.ensure_eq('states follow the given dynamics', sol.y[i], z[:n], tol=tol)
        if nq:
            w.ensure_eq('quadratures follow the given rates', sol.q[i], z[n:n + nq], tol=tol)
    w.ensure_eq('dynamical parameters', sol.dynamical_parameters, x[n + nq:n + nq + nd], tol=tol)
    w.ensure_eq('boundary parameters', sol.nondynamical_parameters, x[n + nq + nd:], tol=tol)
    w.ensure_eq('interval', (sol.t[0], sol.t[-1]), (0.0, T))
    w.ensure_eq('constants', sol.const, old['const'])
    for nm in ('t', 'y', 'q', 'dynamical_parameters', 'nondynamical_parameters', 'const'):
        w.ensure_eq('guess kept: ' + nm, getattr(g, nm), old[nm], tol=1e-300)
    # the same solver object is used again
    again = s.solve(g)['sol']
    w.ensure_eq('solving again gives the same', again.y, sol.y)


@contract('C19', 'conc', funcs=F, trials=20, budget=30, bound='one infeasible family')
def failure_is_reported(w):
    patch_real(None)
    S, Tr = w.get(SPM, 'SPBVP'), w.get(TR, 'Trajectory')
    a = w.real('a', 0.5, 2)
    f = lambda y, p, k: np.array([y[1], k[0] * 0])
    bc = lambda ya, yb, p, pn, k: np.array([ya[1] - 0.0, yb[1] - a])     # contradicts y'' = 0
    t = np.linspace(0, 1, 5)
    g = Tr(t, np.column_stack((t, np.ones(5))))
    g.const = np.array([1.0])
    out = S(f, None, bc).solve(g)
    w.ensure('an unsolvable problem is not reported converged', not out['sol'].converged and not out['success'])
    # starved of nodes
    f2 = lambda y, p, k: np.array([y[1], 4000 * y[0]])
    bc2 = lambda ya, yb, p, pn, k: np.array([ya[0] - 1, yb[0] - 1])
    g2 = Tr(t, np.column_stack((t, np.ones(5))))
    out = S(f2, None, bc2, max_nodes=8).solve(g2)
    w.ensure('out of nodes is not converged', not out['sol'].converged)
    out = S(f2, None, bc2).solve(g2)
    w.ensure('with enough nodes it converges', bool(out['sol'].converged), out['message'])
    # the same with a quadrature
    bc3 = lambda ya, qa, yb, qb, p, pn, k: np.array([ya[0] - 1, yb[0] - 1, qa[0]])
    g2.q = np.zeros((5, 1))
    rate = lambda y, p, k: np.array([y[0]])
    out = S(f2, rate, bc3, max_nodes=w.choice('nodes', [6, 8, 10])).solve(g2)
    w.ensure('out of nodes is not converged (quadrature)', not out['sol'].converged and not out['success'])
    out = S(f2, rate, bc3).solve(g2)
    w.ensure('with enough nodes it converges (quadrature)', bool(out['sol'].converged), out['message'])


@contract('C19', 'sym conc', trials=30, budget=20, funcs=['bvp_algorithm', 'SPBVP.__init__', 'Shooting.__init__', 'BaseAlgorithm.__init__'],
          bound='names in random letter case')
def solvers_are_made_by_name_with_the_settings_given(w):
    """bvp_algorithm gives the solver of that name, in any letter case, with the settings given; no other name gives one"""
    mk = w.get(SPM, 'bvp_algorithm')
    kind, case = w.choice('kind', ['SPBVP', 'Shooting']), w.choice('case', [str, str.lower, str.upper, str.swapcase])
    cls = w.get(SPM, kind)
    tol, nodes = w.real('tol', 0, 1), w.int_in('nodes', 3, 5000)
    arcs, iters = w.int_in('arcs', 1, 8), w.int_in('iters', 1, 200)
    if kind == 'SPBVP':
        s = mk(case(kind), max_nodes=nodes)
        w.ensure('kind', type(s) is cls)
        w.ensure_eq('max_nodes', s.max_nodes, nodes)
    else:
        s = mk(case(kind), tolerance=tol, num_arcs=arcs, max_iterations=iters, algorithm='fsolve')
        w.ensure('kind', type(s) is cls)
        w.ensure_eq('tolerance', s.tolerance, tol)
        w.ensure_eq('num_arcs', s.num_arcs, arcs)
        w.ensure_eq('max_iterations', s.max_iterations, iters)
        w.ensure_eq('algorithm', s.algorithm, 'fsolve')
    for bad in ('nosuch', '', kind + 'x', kind[1:]):
        w.ensure_raises('no solver of that name', lambda: mk(bad), ValueError)
