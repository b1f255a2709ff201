"""C26: initial guesses, and constants matched to a trajectory."""
import copy
from types import SimpleNamespace as NS
import numpy as np
from belv.world import contract, Missing
from belv.contracts.common import SP, TR, small_ocp, new_sol
from belv.contracts.c24_declarations import Solver, quiet, BE, GG, KINDS, run_solve

PARTS = ['t', 'y', 'q', 'u', 'dual', 'dynamical_parameters', 'nondynamical_parameters', 'const']


class Map:
    """any solution map: records what it is given, returns an arbitrary trajectory"""

    def __init__(self, w, N, ny, nq):
        self.w, self.calls = w, 0
        self.N, self.ny, self.nq = N, ny, nq

    def __call__(self, sol):
        w = self.w
        self.calls += 1
        self.given = {f: getattr(sol, f) for f in PARTS}
        r = new_sol(w)
        r.t, r.y, r.q, r.u = w.arr('mt', self.N), w.arr('my', self.N, self.ny), w.arr('mq', self.N, self.nq), w.arr('mu', self.N, 1)
        r.dynamical_parameters, r.nondynamical_parameters, r.const = w.arr('mp', 3), w.arr('mn', 2), w.arr('mk', 2)
        self.out = {f: getattr(r, f) for f in PARTS}
        return r


class Prop:
    """the propagator by its contract (C20): asked for a span and a start, returns a trajectory over it"""
    log, w = [], None

    def __init__(self, *a, **k):
        pass

    def __call__(self, deriv, quad, tspan, y0, q0, *args, **kw):
        w = Prop.w
        r = new_sol(w)
        r.t, r.y, r.q, r.u = w.arr('pt', 2), w.arr('py', 2, 2), w.arr('pq', 2, 1), w.arr('pu', 2, 1)
        Prop.log.append(NS(deriv=deriv, quad=quad, t=tspan, y0=y0, q0=q0, args=args, kw=kw, out={f: getattr(r, f) for f in ('t', 'y', 'q', 'u')}))
        return r


def settings(w, nx, nq, nu):
    s = {}
    start = w.arr('start', nx)
    if w.symbolic:
        cost, ctrl = w.choice('guesses', [('default', 'vector'), ('scalar', 'integer'), ('vector', 'scalar'), ('integer', 'default'), ('vector', 'vector')])
    else:
        cost = w.choice('costate guess', ['default', 'scalar', 'vector', 'integer'])
        ctrl = w.choice('control guess', ['vector', 'integer', 'scalar', 'default'])
    if cost == 'scalar':
        s['costate_guess'] = 0.375
    elif cost == 'integer':
        s['costate_guess'] = -2
    elif cost == 'vector':
        s['costate_guess'] = w.arr('lam', nx)
    if ctrl == 'scalar':
        s['control_guess'] = -0.625
    elif ctrl == 'integer':
        s['control_guess'] = 3
    elif ctrl == 'vector':
        s['control_guess'] = w.arr('ctl', nu)
    if w.choice('quadratures', [True, False]):
        s['quad_guess'] = w.arr('quad', nq)
    s['direction'] = w.choice('direction', ['forward', 'reverse'])
    s['start'] = start
    return s


def rows(w, tag, got, N, val, n):
    for i in range(N):
        if isinstance(val, (int, float)) and w.mode != 'sym':
            w.ensure_eq('%s: spread over all components' % tag, got[i], val * np.ones(n))
        elif isinstance(val, (int, float)):
            j = w.int_in('j_%s%d' % (tag, i), 0, n - 1)
            w.ensure_eq('%s: spread over all components' % tag, got[i][j], val)
        else:
            w.ensure_eq('%s: as given' % tag, got[i], val)
    w.ensure_eq('%s: number of components' % tag, got.shape[1], n)


@contract('C26', 'sym bsym conc', trials=60, budget=60, bound='states, controls, quadratures <= 2',
          funcs=['GuessGenerator.auto', 'GuessGenerator.ones', 'GuessGenerator.setup_auto', 'GuessGenerator.setup_ones', 'GuessGenerator.generate',
                 'GuessGenerator.setup', 'guess_generator'],
          assumes=['Propagator by its contract (C20)', 'solution map arbitrary (C01)'])
def guess_starts_as_set(w):
    kind = w.choice('kind', ['ones', 'auto'])
    nx, nq, nu = w.dim('nx', 1, 2), w.dim('nq', 0, 2), w.dim('nu', 1, 2)
    m = w.mod(GG)
    G, gg = w.get(GG, 'GuessGenerator', 'guess_generator')
    s = settings(w, nx, nq, nu)
    T = w.real('T', 0.1, 5.0)
    sgn, how = w.choice('made', [(1, 'helper'), (-1, 'constructor'), (1, 'setup'), (1, 'constructor')])
    dur = sgn * T
    kw = dict(s, time_integrate=dur)
    if how == 'helper':
        g = gg(kind, **kw)
    elif how == 'constructor':
        g = G(mode=kind, **kw)
    else:
        g = G()
        g.setup(kind, **kw)
    w.attr(g, 'dae_num_states')
    g.dae_num_states = nu
    mp = Map(w, 3, 2, 1)
    sol0 = new_sol(w)
    sol0.const = w.arr('const', 2)
    fns = NS(deriv_func=lambda *a: None, quad_func=lambda *a: None)
    w.get(GG, 'Propagator')
    old, m.Propagator = m.Propagator, Prop
    Prop.log, Prop.w = [], w
    try:
        out = g.generate(fns, sol0, mp, None)
    finally:
        m.Propagator = old
    if kind == 'ones':
        w.ensure('no propagation for the constant guess', not Prop.log)
    w.ensure('the guess is mapped once', mp.calls == 1)
    got = mp.given
    N = 2 if kind == 'auto' else 4
    w.ensure_eq('nodes', got['t'].shape[0], N)
    sign = 1 if s['direction'] == 'forward' else -1
    w.ensure_eq('starts at time zero', got['t'][0], 0)
    w.ensure_eq('runs for the given duration, in the given direction', got['t'][N - 1], sign * T)
    for i in range(1, N):
        w.ensure_eq('evenly spaced', (got['t'][i] - got['t'][i - 1]) * (N - 1), sign * T)
    rows(w, 'state', got['y'], N, s['start'], nx)
    rows(w, 'costate', got['dual'], N, s.get('costate_guess', 0.1), nx)
    rows(w, 'control', got['u'], N, s.get('control_guess', 0.1), nu)
    if 'quad_guess' in s:
        rows(w, 'quadrature', got['q'], N, s['quad_guess'], nq)
    else:
        w.ensure('no quadratures unless given', got['q'].shape[1] == 0)
    w.ensure_eq('constants as passed in', got['const'], sol0.const)
    if kind == 'ones':
        for f in PARTS:
            w.ensure_eq('the mapped guess is returned: ' + f, getattr(out, f), mp.out[f])
    else:
        if not Prop.log:
            raise Missing('the propagator is not called through the module')
        w.ensure('propagated once', len(Prop.log) == 1)
        c = Prop.log[0]
        w.ensure("propagated with the problem's functions", c.deriv is fns.deriv_func and c.quad is fns.quad_func)
        w.ensure_eq('over the mapped span: start', c.t[0], mp.out['t'][0])
        w.ensure_eq('over the mapped span: end', c.t[-1], mp.out['t'][2])
        w.ensure_eq('from the mapped start', c.y0, mp.out['y'][0])
        w.ensure_eq('from the mapped quadratures', c.q0, mp.out['q'][0])
        if len(c.args) != 2:
            raise Missing('parameters and constants passed otherwise')
        w.ensure_eq('with the mapped parameters', c.args[0], mp.out['dynamical_parameters'])
        w.ensure_eq('with the mapped constants', c.args[1], mp.out['const'])
        for f in ('t', 'y', 'q', 'u'):
            w.ensure_eq('the propagated trajectory is returned: ' + f, getattr(out, f), c.out[f])
        for f in PARTS[5:]:
            w.ensure_eq('with the mapped ' + f, getattr(out, f), mp.out[f])


@contract('C26', 'bsym conc', trials=20, budget=20, bound='one trajectory', funcs=['GuessGenerator.static', 'GuessGenerator.setup_static'])
def static_guess_is_the_mapped_trajectory(w):
    gg = w.get(GG, 'guess_generator')
    s = new_sol(w)
    s.t, s.y, s.q, s.u, s.dual, s.const = w.arr('t', 3), w.arr('y', 3, 2), w.arr('q', 3, 1), w.arr('u', 3, 1), w.arr('d', 3, 2), w.arr('k', 2)
    keep = {f: getattr(s, f).copy() for f in PARTS}
    g = gg('static', solinit=s)
    for _ in range(2):
        mp = Map(w, 3, 2, 1)
        inner = mp.__class__.__call__

        def scribble(sol):
            r = mp(sol)
            mp.given = {f: a.copy() for f, a in mp.given.items()}
            sol.y[0] = sol.y[0] + 5
            sol.t = sol.t * 2
            return r
        out = g.generate(None, new_sol(w), scribble, None)
        for f in PARTS:
            w.ensure_eq('the map is given the trajectory: ' + f, mp.given[f], keep[f])
            w.ensure_eq('its result is the guess: ' + f, getattr(out, f), mp.out[f])
            w.ensure_eq("the user's trajectory stays: " + f, getattr(s, f), keep[f])


@contract('C26', 'sym bsym conc', trials=40, budget=20, bound='any duration', funcs=['GuessGenerator.setup_auto', 'GuessGenerator.setup_ones', 'GuessGenerator.setup'])
def unusable_settings_are_refused(w):
    gg, G = w.get(GG, 'guess_generator', 'GuessGenerator')
    kind = w.choice('kind', ['auto', 'ones'])
    zero = w.choice('zero', [0, 0.0, -0.0])
    w.ensure_raises('zero duration', lambda: gg(kind, start=[0.0], time_integrate=zero), ValueError)
    bad = w.choice('direction', ['backward', '', 'Forward', None, 'up'])
    w.ensure_raises('unknown direction', lambda: gg(kind, start=[0.0], direction=bad), ValueError)
    mode = w.choice('mode', ['random', '', 'AUTO', None])
    w.ensure_raises('unknown kind', lambda: gg(mode, start=[0.0]), ValueError)

    def late():
        g = G()
        g.mode = mode
        g.generate(None, None, None, None)
    w.ensure_raises('unknown kind when generating', late, ValueError)
    T = w.real('T')
    w.assume(T * T > 0.01)
    g = gg(kind, start=[0.0], time_integrate=T)
    w.ensure_eq('duration', g.time_integrate * g.time_integrate, T * T)


# -- constants matched to a trajectory --------------------------------------
CN = ['x_0', 'x_f', 'v_0', 'v_f', 't_0', 't_f', 'g', 'x_1', 'x', 'v_ff', 'a_0', 'x0', '_0', '_f', 'v_0_f']


@contract('C26', 'sym bsym conc', trials=80, budget=40, bound='<= 3 nodes, 2 states', funcs=['match_constants_to_states'])
def constants_matched_to_the_ends(w):
    match = w.get(GG, 'match_constants_to_states')
    names = w.choice('states', [['x', 'v'], ['v', 'x'], ['x'], ['x', 'v_0'], ['x', 'x_f', 'v']])
    order = w.choice('order', [0, 1, 2, 3])
    cn = list(CN) if order == 0 else list(reversed(CN)) if order == 1 else CN[order::2] + CN[:1] if w.symbolic else w.rng.sample(CN, w.rng.randint(0, len(CN)))
    cn = [c for c in dict.fromkeys(cn) if c not in names]
    ind = w.choice('independent', ['t', 'tau'])
    prob = NS(states=[NS(name=n) for n in names], independent_variable=NS(name=ind), constants=[NS(name=c) for c in cn])
    N = w.dim('N', 1, 3)
    s = new_sol(w)
    s.t, s.y = w.arr('t', N), w.arr('y', N, len(names))
    s.const = w.arr('k', len(cn))
    if w.mode == 'conc' and w.rng.random() < 0.2:
        s.const = np.array([w.rng.randint(-9, 9) for _ in cn], dtype=int)
    k0, t, y = s.const.copy(), s.t, s.y
    out = match(prob, s)
    comp = {n: y[:, i] for i, n in enumerate(names)}
    comp[ind] = t
    for j, c in enumerate(cn):
        base = c[:-2] if c[-2:] in ('_0', '_f') else None
        if base in comp:
            w.ensure_eq('constant named after a component and an end', out.const[j], comp[base][0 if c[-2:] == '_0' else N - 1])
        else:
            w.ensure_eq('other constants stay', out.const[j], k0[j])
    w.ensure_eq('no constant added', out.const.shape[0], len(cn))
    w.ensure_eq('times stay', out.t, t)
    w.ensure_eq('states stay', out.y, y)


# -- through solve ----------------------------------------------------------
@contract('C26', 'conc', trials=40, budget=60, funcs=['solve', 'GuessGenerator.auto', 'GuessGenerator.ones', 'match_constants_to_states', 'Propagator'])
def guesses_through_solve(w):
    """the guess the solver receives, mapped back to the user's variables"""
    kind, method = w.choice('problem', [k for k in KINDS if k[1] != 'direct'])
    p = small_ocp(w, kind)
    n, nu = len(p.states), len(p.controls)
    gk = w.choice('guess', ['auto', 'ones'])
    cl = w.choice('costates', ['scalar', 'vector'])
    lam = round(w.rng.uniform(-1, 1), 3) if cl == 'scalar' else [round(w.rng.uniform(-1, 1), 3) for _ in range(n)]
    ct = w.choice('controls', ['scalar', 'vector', 'integer'])
    u = {'scalar': 0.25, 'integer': 1, 'vector': [0.1 * (i + 1) for i in range(nu)]}[ct]
    start = [round(w.rng.uniform(0.2, 0.8), 3) for _ in range(n)]
    T = round(w.rng.uniform(0.2, 0.8), 3)
    d = w.choice('direction', ['forward', 'reverse'])
    helper = w.choice('helper', [False, True])
    g = w.get(GG, 'guess_generator')(gk, start=list(start), costate_guess=lam, control_guess=u, time_integrate=T, direction=d)
    opts = {}
    if method in ('diffyg',):
        helper = False
    if helper:
        d = 'forward'
        g = w.get(GG, 'guess_generator')(gk, start=list(start), costate_guess=lam, control_guess=u, time_integrate=T)
    solve = w.get(BE, 'solve')
    seen = {}

    class Alg(Solver):
        def solve(self, sol, **kw):
            seen['sol'] = copy.deepcopy(sol)
            return {'sol': copy.deepcopy(sol), 'niter': 0, 'success': True, 'message': ''}
    out = quiet(lambda: solve(ocp=p, method=method, bvp_algorithm=Alg(), guess_generator=g, save_sols=False, autoscale=False, initial_helper=helper))
    s = out[0][0]
    if method == 'diffyg':
        w.tol = 1e-6
    sign = -1 if d == 'reverse' else 1
    w.ensure_eq('duration and direction', s.t[-1] - s.t[0], sign * T, tol=1e-9)
    w.ensure_eq('starts at the given state', s.y[0], np.array(start), tol=1e-8)
    if kind not in ('epstrig', 'utm') and method != 'diffyg':
        w.ensure_eq('starts at the given costates', s.dual[0], np.array(lam) if cl == 'vector' else lam * np.ones(n), tol=1e-8)
    if gk == 'ones':
        w.ensure_eq('constant guess', s.y, np.tile(start, (len(s.t), 1)), tol=1e-8)
    const = {c.name: v for c, v in zip(p.constants, s.const)}
    for c in p.constants:
        want = c.default_val
        if helper and c.name[-2:] in ('_0', '_f') and c.name[:-2] in [z.name for z in p.states]:
            want = s.y[0 if c.name[-2:] == '_0' else -1, [z.name for z in p.states].index(c.name[:-2])]
        w.ensure_eq('constant ' + ('matched' if want != c.default_val else 'as declared'), const[c.name], want, tol=1e-8)
    if gk == 'auto' and method != 'diffyg' and kind in ('double', 'two_controls', 'three_states', 'drag'):
        # the state history follows the declared rates under the control history it carries
        import sympy
        q = copy.deepcopy(p)
        q.sympify_self()
        syms = [z.sym for z in q.states] + [z.sym for z in q.controls] + [z.sym for z in q.constants] + [q.independent_variable.sym]
        f = sympy.lambdify(syms, [z.eom for z in q.states])
        c = [const[z.name] for z in q.constants]
        N = len(s.t)
        if N > 3 and np.all(np.isfinite(s.u)):
            F = np.array([f(*s.y[i], *s.u[i], *c, s.t[i]) for i in range(N)], dtype=float)
            from scipy.interpolate import CubicSpline
            order = np.argsort(s.t)
            for j in range(n):
                integral = CubicSpline(s.t[order], F[order, j]).integrate(s.t[order][0], s.t[order][-1]) * sign
                w.ensure_eq('follows the dynamics', s.y[-1, j] - s.y[0, j], integral, tol=max(2e-3, 2e-2 * np.max(np.abs(F[:, j])) * T))
