"""C20: propagation and quadrature."""
import numpy as np
from belv.world import contract, Missing
from belv.contracts.common import TR, quadrature

IV = 'beluga.numeric.ivp_solvers'
F = ['Propagator.__new__', 'Propagator.__call__']
A = ['scipy.integrate.solve_ivp: grid over the span (or t_eval), first state y0, otherwise an arbitrary function of its arguments',
     'scipy.integrate.simpson: an arbitrary function of the samples and the grid', 'scipy.interpolate.interp1d: linear interpolation']


def setup(w, quads=True, n_hi=2):
    n = w.dim('n', 1, n_hi, split=(1,))
    nq = w.dim('nq', 1, 2, split=(1,)) if quads else 0
    eom = w.fn('eom', out=n)
    rate = w.fn('rate', out=nq) if quads else None
    t0 = w.real('t0')
    return n, nq, eom, rate, t0


def spec_quads(w, rate, y, t, q0, p, k, N, nq):
    """q0 plus the numerical integral of the rates up to each node"""
    dq = w.rowmap(N, lambda r: rate(r, p, k), y, out=nq)
    if w.mode == 'sym':
        from belv import stubs, terms as T, symarr as S
        import z3
        f, g, h = dq.snap(), t.snap(), q0.snap()
        gx = T.zlambda(lambda K: g((K,)))
        return S.SymArr((N, nq), lambda ix: z3.If(S.idx_term(ix[0]) == 0, h((ix[1],)), h((ix[1],)) + stubs.SIMP(
            T.zlambda(lambda K: f((K, ix[1]))), gx, S.idx_term(S.add(ix[0], 1)))))
    out = np.zeros((N, nq), dtype=object if w.symbolic else float)
    for i in range(N):
        for j in range(nq):
            out[i, j] = q0[j] + (quadrature(w, dq[:i + 1, j], t[:i + 1]) if i else 0)
    return out


@contract('C20', 'sym bsym conc', funcs=['reconstruct'], trials=60, budget=80, assumes=A, bound='nodes 2..4, states <=2, quadratures <=2')
def reconstruction_integrates_the_rates(w):
    Tr = w.get(TR, 'Trajectory')
    rec = w.get(IV, 'reconstruct')
    n, nq, eom, rate, t0 = setup(w)
    N = w.dim('N', 2, 4)
    t = w.times('t', N, ordered=True)
    y = w.arr('y', N, n)
    q0, p, k = w.arr('q0', nq), w.arr('p', w.dim('np', 0, 1)), w.arr('k', w.dim('nk', 0, 1))
    g0 = Tr(t, y)
    g = rec(rate, g0, q0, p, k)
    want = spec_quads(w, rate, y, t, q0, p, k, N, nq)
    w.ensure_eq('quadratures', g.q, want)
    w.ensure_eq('first node holds the initial values', g.q[0], q0)
    w.ensure_eq('states kept', g.y, y)
    w.ensure_eq('times kept', g.t, t)
    w.ensure('the given trajectory keeps its (absent) quadratures', np.size(g0.q) == 0)


@contract('C20', 'sym bsym', funcs=F, budget=80, assumes=A, bound='nodes 2..3, states <=2')
def propagation_is_the_integration_of_the_dynamics(w):
    import belv.terms as T
    P = w.get(IV, 'Propagator')
    n, nq, eom, rate, t0 = setup(w)
    back = w.choice('direction', ['forward', 'backward'])
    d = w.real('d', 0)
    tf = t0 + d if back == 'forward' else t0 - d
    y0, q0, p, k = w.arr('y0', n), w.arr('q0', nq), w.arr('p', w.dim('np', 0, 1)), w.arr('k', 1)
    span = [t0, tf] if w.choice('span', ['two', 'three']) == 'two' else [t0, (t0 + tf) / 2, tf]
    prop = P()
    g = prop(eom, rate, span, y0, q0, p, k)
    log = getattr(T.CTX, 'ivp_log', [])
    if len(log) != 1:
        raise Missing('solve_ivp used %d times' % len(log))
    r = log[0]
    w.ensure_eq('integrated from', r['t0'], t0)
    w.ensure_eq('integrated to', r['tf'], tf)
    w.ensure_eq('start', r['y0'], y0)
    if w.mode == 'bsym':
        w.ensure_eq('dynamics', r['rhs'], eom(r['probe'], p, k))
    else:
        from belv import stubs, symarr as S
        w.ensure_eq('dynamics', r['rhs'], eom(S.SymArr((n,), lambda ix: stubs.PF(S.idx_term(ix[0]))), p, k))
    w.ensure_eq('nodes are the integrated ones', g.y, r['result'].y.T)
    w.ensure_eq('times are the integrated ones', g.t, r['result'].t)
    w.ensure_eq('first time', g.t[0], t0)
    w.ensure_eq('last time', g.t[-1], tf)
    w.ensure_eq('first state', g.y[0], y0)
    N = g.t.shape[0]
    w.ensure_eq('quadratures', g.q, spec_quads(w, rate, g.y, g.t, q0, p, k, N, nq))


@contract('C20', 'sym bsym', funcs=F, budget=60, assumes=A, bound='at most 3 steps, states <=2')
def fixed_step_nodes(w):
    P = w.get(IV, 'Propagator')
    n, nq, eom, rate, t0 = setup(w, quads=False)
    d, h = w.real('d', 0), w.real('h', 0)
    y0, p, k = w.arr('y0', n), w.arr('p', 0), w.arr('k', 1)
    prop = P(variable_step=False, maxstep=h)
    span = [t0, t0 + d] if w.choice('span', ['two', 'three']) == 'two' else [t0, t0 + d / 2, t0 + d]
    g = prop(eom, None, span, y0, [], p, k)
    w.ensure_eq('first time', g.t[0], t0)
    w.ensure_eq('first state', g.y[0], y0)
    N = g.t.shape[0]
    w.ensure_eq('last time', g.t[N - 1], t0 + d)
    i = w.int_in('i', 0, N - 2)
    w.ensure_eq('nodes at the configured step', g.t[i], t0 + i * h)
    w.ensure('no step longer than configured', g.t[i + 1] - g.t[i] <= h * (1 + 1e-5))     # up to rounding
    w.ensure('one state per node', w.mode == 'sym' or g.y.shape == (N, n))


@contract('C20', 'bsym conc', funcs=F + ['integrate_quads'], trials=60, budget=60, assumes=A, bound='nodes 2..3, states <=2, quadratures <=2')
def the_quick_option_gives_the_same_terminal_values(w):
    P = w.get(IV, 'Propagator')
    n, nq, eom, rate, t0 = setup(w)
    d = w.real('d', 0.01, 2)
    y0, q0, p, k = w.arr('y0', n), w.arr('q0', nq), w.arr('p', 1), w.arr('k', 1)
    sg = w.choice('direction', [1, -1])
    args = (eom, rate, [t0, t0 + sg * d], y0, q0, p, k)
    full = P(maxstep=0.05)(*args)
    quick = P(maxstep=0.05, quick_reconstruct=True)(*args)
    w.ensure_eq('terminal quadratures', quick.q[-1], full.q[-1])
    w.ensure_eq('initial quadratures', quick.q[0], q0)
    w.ensure_eq('states', quick.y, full.y)
    w.ensure('one row per node', quick.q.shape == full.q.shape)


@contract('C20', 'bsym conc', funcs=['integrate_quads'], trials=60, budget=60, assumes=A, bound='nodes 2..3')
def integration_over_part_of_a_trajectory(w):
    Tr = w.get(TR, 'Trajectory')
    iq = w.get(IV, 'integrate_quads')
    n, nq, eom, rate, t0 = setup(w)
    N = w.dim('N', 2, 3)
    t = w.times('t', N)
    if not w.symbolic and w.choice('direction', [1, -1]) < 0:
        t = -t
    y = w.arr('y', N, n)
    g = Tr(t, y)
    own = w.choice('own', [False, True])        # the trajectory already carries quadratures
    if own:
        g.q = w.arr('q', N, nq)
    i = w.int_in('i', 0, N - 2)
    j = w.int_in('j', i + 1, N - 1)
    inner = w.choice('ends', ['nodes', 'inside', 'close'])
    a = t[i] if inner == 'nodes' else t[i] + (w.real('fa', 0, 0.45) if inner == 'inside' else 0.9999) * (t[i + 1] - t[i])
    b = t[j] if inner != 'inside' else t[j] - w.real('fb', 0, 0.45) * (t[j] - t[j - 1])
    got = iq(lambda s, r: rate(r), [a, b], g)
    ts = [a] + [t[m] for m in range(N) if i < m < j] + [b]
    if w.symbolic:
        ts2 = np.empty(len(ts), dtype=object)
        ts2[:] = ts
        ts = ts2
    rows = [rate(g(s)[0]) for s in ts]
    want = np.array([quadrature(w, np.array([r[m] for r in rows]), ts if w.symbolic else np.array(ts)) for m in range(nq)])
    if own:
        want = want + g(a)[1]
    w.ensure_eq('value at the start of the interval plus the integral over it' if own else 'integral over the interval', got, want)
    if not w.symbolic:
        sg = 1 if t[-1] > t[0] else -1
        w.ensure_raises('before the first node', lambda: iq(lambda s, r: rate(r), [t[0] - 0.1 * sg, b], g))
        w.ensure_raises('after the last node', lambda: iq(lambda s, r: rate(r), [a, t[-1] + 0.1 * sg], g))


def system(w, n):
    A = np.array([[w.real('A%d%d' % (i, j), -1, 1) for j in range(n)] for i in range(n)])
    b = np.array([w.real('b%d' % i, -1, 1) for i in range(n)])
    return A, b


def exact(A, b, p, y0, s):
    from scipy.linalg import expm
    n = len(b)
    M = np.zeros((n + 1, n + 1))
    M[:n, :n], M[:n, n] = p * A, b
    return (expm(M * s) @ np.append(y0, 1.0))[:n]


@contract('C20', 'conc', funcs=F, trials=80, budget=60, bound='linear systems of 1..4 states, forward and backward')
def propagation_matches_the_exact_flow(w):
    P = w.get(IV, 'Propagator')
    n = w.dim('n', 1, 4)
    A, b = system(w, n)
    t0, d = w.real('t0'), w.real('d', 0.05, 2)
    back = w.choice('direction', [1, -1])
    fixed = w.choice('mode', ['variable', 'fixed'])
    if fixed == 'fixed':
        back = 1
    h = w.real('h', 0.01, 0.4)
    if w.choice('interval', ['any', 'multiple of the step']) != 'any':
        t0, h = w.choice('round t0', [0.0, 0.1, 0.3, 0.7, 1.0, 2.0, -1.3]), w.choice('round h', [0.1, 0.05, 0.2, 0.3])
        d = w.int_in('steps', 1, 12) * h
    y0 = w.arr('y0', n)
    p, k = np.array([w.real('p', 0.5, 1.5)]), b.copy()
    tf = t0 + back * d
    opts = dict(abstol=1e-9, reltol=1e-9, maxstep=h)
    if fixed == 'fixed':
        opts['variable_step'] = False
    if w.choice('stepper', ['default', 'other']) == 'other':
        opts['stepper'] = w.choice('which', ['RK23', 'DOP853', 'LSODA', 'RK45'])
    eom = lambda y, pp, kk: pp[0] * (A @ y) + kk
    rate = lambda y, pp, kk: np.array([y.sum() * pp[0], kk[0] * y[0] ** 2])
    y0c, pc, kc = y0.copy(), p.copy(), k.copy()
    q0 = w.arr('q0', 2)
    span = w.choice('span', [[t0, tf], np.array([t0, tf]), np.linspace(t0, tf, 4), [t0, t0 + 0.1 * (tf - t0), tf]])
    g = P(**opts)(eom, rate, span, y0, q0, p, k)
    N = len(g.t)
    w.ensure('one row per time', g.y.shape == (N, n) and g.q.shape == (N, 2), '%s %s %s' % (g.t.shape, g.y.shape, g.q.shape))
    w.ensure_eq('starts at', g.t[0], t0)
    w.ensure_eq('ends at', g.t[-1], tf)
    w.ensure_eq('first state', g.y[0], y0)
    if fixed == 'fixed':
        want = [t0 + i * h for i in range(int(np.ceil(d / h - 1e-7)))] + [tf]
        w.ensure('nodes at the configured step plus the end point', len(want) == N and np.allclose(want, g.t),
                 '%d nodes, %d expected' % (N, len(want)))
    else:
        w.ensure('no step longer than the configured maximum', np.max(np.abs(np.diff(g.t))) <= h * (1 + 1e-9))
    w.ensure('time runs one way', (np.diff(g.t) * back > 0).all())
    for i in range(N):
        w.ensure_eq('node follows the dynamics', g.y[i], exact(A, b, p[0], y0, g.t[i] - t0), tol=2e-5)
    rows = np.array([rate(r, p, k) for r in g.y])
    from scipy.integrate import simpson
    for i in range(1, N):
        w.ensure_eq('quadrature to node', g.q[i], q0 + np.array([simpson(rows[:i + 1, m], x=g.t[:i + 1]) for m in range(2)]))
    w.ensure_eq('quadrature starts', g.q[0], q0)
    for r, q in ((None, np.array([])), (rate, np.array([])), (None, q0)):       # no quadratures without rates and initial values
        g2 = P(**opts)(eom, r, span, y0, q, p, k)
        w.ensure('no quadratures asked for, none returned', np.size(g2.q) == 0)
        w.ensure_eq('same states without quadratures', g2.y, g.y)
        w.ensure_eq('same times without quadratures', g2.t, g.t)
    w.ensure_eq('inputs kept', (y0, p, k), (y0c, pc, kc))
    g2 = P(**opts)(eom, None, [t0, tf], y0, [], p, k)
    w.ensure_eq('without quadratures: same states', g2.y, g.y)
    w.ensure_raises('unknown program refused', lambda: P(program='other')(eom, None, [t0, tf], y0, [], p, k), NotImplementedError)


@contract('C20', 'conc', funcs=F, trials=10, budget=20)
def configured_accuracy_is_used(w):
    P = w.get(IV, 'Propagator')
    om = w.real('om', 3, 6)
    eom = lambda y, p, k: np.array([y[1], -om ** 2 * y[0]])
    errs = []
    for tol in (1e-4, 1e-10):
        g = P(abstol=tol, reltol=tol, maxstep=10.0)(eom, None, [0, 5.0], np.array([1.0, 0.0]), [], [], [])
        errs.append(abs(g.y[-1, 0] - np.cos(om * 5.0)))
    w.ensure('tighter tolerances give smaller errors', errs[1] < 1e-6 and errs[1] < errs[0], str(errs))


@contract('C20', 'conc', funcs=F, trials=40, budget=30, bound='oscillators of small and large amplitude, every setting at random')
def every_setting_reaches_the_integrator(w):
    """the nodes are those of the configured integrator: same method, tolerances and largest step"""
    from scipy.integrate import solve_ivp
    P = w.get(IV, 'Propagator')
    om, sc = w.real('om', 1, 4), w.choice('scale', [1.0, 1e-6, 1e4])
    eom = lambda y, p, k: np.array([p[0] * y[1], -om ** 2 * y[0] / k[0]])
    kind = w.choice('kind', ['RK45', 'RK23', 'DOP853', 'rk45', 'Rk23'])
    at, rt = w.choice('abstol', [1e-3, 1e-6, 1e-9, 1e-12]), w.choice('reltol', [1e-2, 1e-4, 1e-7])
    h = w.choice('maxstep', [0.002, 0.03, 0.3, 5.0])
    var = w.choice('variable', [True, False])
    t0, tf = w.real('t0', -1, 1), None
    d = w.real('d', 0.5, 4.0)
    tf = t0 + d
    y0, p, k = np.array([sc, 0.3 * sc]), np.array([w.real('p', 0.5, 2)]), np.array([w.real('k', 0.5, 2)])
    g = P(abstol=at, reltol=rt, maxstep=h, stepper=kind, variable_step=var)(eom, None, [t0, tf], y0, [], p, k)
    rhs = lambda t, y: eom(y, p, k)
    if var:
        r = solve_ivp(rhs, [t0, tf], y0, rtol=rt, atol=at, max_step=h, method=kind.upper())
        w.ensure('same nodes', len(g.t) == len(r.t) and np.allclose(g.t, r.t, rtol=1e-9, atol=1e-12), '%d nodes, %d expected' % (len(g.t), len(r.t)))
    else:
        r = solve_ivp(rhs, [t0, tf], y0, rtol=rt, atol=at, method=kind.upper(), t_eval=np.clip(g.t, t0, tf))
    if len(g.t) == len(r.t):
        w.ensure('same states', np.allclose(g.y, r.y.T, rtol=1e-7, atol=1e-9 * sc), '%s %s %g %g: %s' % (kind, var, at, rt, np.max(np.abs(g.y - r.y.T))))
