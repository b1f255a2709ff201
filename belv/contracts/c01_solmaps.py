"""C01: solution mappings are inverse to each other and hold what they say."""
import copy
import numpy as np
from belv.world import contract
from belv.contracts.common import new_sol, TM, MF, small_ocp, build_bvp, rand_sol_for, OCP_KINDS, symmetric_ocp, SYMMETRIC_KINDS

FM = ['trajectory_mappers.%s.%s' % (c, m) for c in ('MomentumShiftMapper',) for m in ('map', 'inv_map')]


def base_sol(w, nlo=1, start=None, nu=0, npar=None, dual=True):
    N = w.dim('N', 2, 3)
    n = w.dim('n', nlo, 3)
    s = new_sol(w)
    s.t = w.times('t', N, start=start)
    s.y = w.arr('y', N, n)
    if dual:
        s.dual = w.arr('lam', N, n)
    if nu:
        s.u = w.arr('u', N, nu)
    s.dynamical_parameters = w.arr('p', w.dim('np', 0, 2))
    s.const = w.arr('k', w.dim('nk', 0, 2))
    return s, N, n


def keep(w, s, fields):
    return {f: w.snapshot(getattr(s, f)) for f in fields}


def same(w, tag, s, old, fields):
    for f in fields:
        w.ensure_eq('%s.%s' % (tag, f), getattr(s, f), old[f])


@contract('C01', 'sym bsym conc', trials=60, budget=40, bound='nodes<=3, states<=3, parameters<=2, constants<=2',
          funcs=['MomentumShiftMapper.map', 'MomentumShiftMapper.inv_map'])
def momentum_shift_map_is_inverted(w):
    M = w.get(TM, 'MomentumShiftMapper')
    s, N, n = base_sol(w)
    given = w.choice('idx_given', [True, False])
    idx = w.int_in('idx', 0, n) if given else None
    if w.choice('has_dual_t', [True, False]):
        s.dual_t = w.arr('lam_t', N)
        lt = w.snapshot(s.dual_t)
    else:
        lt = None
    old = keep(w, s, ['t', 'y', 'dual', 'dynamical_parameters', 'const'])
    m = M(ind_state_idx=idx)
    s2 = m.map(s)
    pos = n if idx is None else idx
    # time sits in its state column, the other columns keep order
    w.ensure_eq('map: shape', s2.y.shape[1], n + 1)
    w.ensure_eq('map: time column', s2.y[:, pos], old['t'])
    w.ensure_eq('map: columns before', s2.y[:, :pos], old['y'][:, :pos])
    w.ensure_eq('map: columns after', s2.y[:, pos + 1:], old['y'][:, pos:])
    w.ensure_eq('map: costate columns before', s2.dual[:, :pos], old['dual'][:, :pos])
    w.ensure_eq('map: costate columns after', s2.dual[:, pos + 1:], old['dual'][:, pos:])
    if lt is not None:
        w.ensure_eq('map: time costate', s2.dual[:, pos], lt)
    s3 = m.inv_map(s2)
    same(w, 'round trip', s3, old, ['t', 'y', 'dual', 'dynamical_parameters', 'const'])
    if lt is not None:
        w.ensure_eq('round trip.dual_t', s3.dual_t, lt)


@contract('C01', 'sym bsym conc', trials=60, budget=40, bound='nodes<=3, states<=3, parameters<=2, constants<=2',
          funcs=['NormalizeTimeMapper.map', 'NormalizeTimeMapper.inv_map'])
def normalize_time_map_is_inverted(w):
    M = w.get(TM, 'NormalizeTimeMapper')
    s, N, n = base_sol(w, start=0)
    if w.choice('backward', [False, True]):
        s.t = -1 * s.t
    npar = s.dynamical_parameters.shape[0]
    given = w.choice('idx_given', [True, False])
    idx = w.int_in('idx', 0, npar) if given else None
    old = keep(w, s, ['t', 'y', 'dual', 'dynamical_parameters', 'const'])
    m = M(delta_ind_idx=idx)
    pos = npar if idx is None else idx
    s2 = m.map(s)
    dur = old['t'][N - 1] - old['t'][0]
    w.ensure_eq('map: duration parameter', s2.dynamical_parameters[pos], dur)
    w.ensure_eq('map: parameters before', s2.dynamical_parameters[:pos], old['dynamical_parameters'][:pos])
    w.ensure_eq('map: parameters after', s2.dynamical_parameters[pos + 1:], old['dynamical_parameters'][pos:])
    w.ensure_eq('map: grid starts at 0', s2.t[0], 0.0)
    w.ensure_eq('map: grid ends at 1', s2.t[N - 1], 1.0)
    j = w.int_in('j', 0, N - 1)
    w.ensure_eq('map: grid is the scaled one', s2.t[j] * dur, old['t'][j])
    same(w, 'map keeps', s2, old, ['y', 'dual', 'const'])
    s3 = m.inv_map(s2)
    same(w, 'round trip', s3, old, ['t', 'y', 'dual', 'dynamical_parameters', 'const'])
    same(w, 'argument untouched', s, old, ['t', 'y', 'dynamical_parameters'])


@contract('C01', 'sym bsym conc', trials=60, budget=40, bound='controls<=3 (sym: any number of nodes and states)',
          funcs=['DifferentialControlMapper.map', 'DifferentialControlMapper.inv_map'])
def differential_control_map_is_inverted(w):
    M = w.get(TM, 'DifferentialControlMapper')
    nu = w.choice('nu', [1, 2, 3])
    s, N, n = base_sol(w, nu=nu)
    old = keep(w, s, ['t', 'y', 'u', 'dual', 'dynamical_parameters', 'const'])
    perm = list(range(nu))
    if w.mode == 'conc':
        w.rng.shuffle(perm)
    m = M(control_idxs=[n + i for i in perm])
    s2 = m.map(s)
    w.ensure_eq('map: width', s2.y.shape[1], n + nu)
    w.ensure_eq('map: states first', s2.y[:, :n], old['y'])
    for i in range(nu):
        w.ensure_eq('map: control %d column' % i, s2.y[:, n + perm[i]], old['u'][:, i])
    w.ensure_eq('map: no control left', s2.u.shape[1], 0)
    w.ensure_eq('map: dual kept', s2.dual, old['dual'])
    s3 = m.inv_map(s2)
    same(w, 'round trip', s3, old, ['t', 'y', 'u', 'dual', 'dynamical_parameters', 'const'])


@contract('C01', 'sym bsym conc', trials=60, budget=40, bound='controls<=3 (sym: any number of nodes and states)',
          funcs=['DifferentialControlMapperDiffyG.map', 'DifferentialControlMapperDiffyG.inv_map'])
def geometric_control_map_is_inverted(w):
    M = w.get(TM, 'DifferentialControlMapperDiffyG')
    nu = w.choice('nu', [1, 2, 3])
    s, N, n = base_sol(w, nu=nu)
    kind = w.choice('costate_arg', ['default', 'scalar', 'array'])
    old = keep(w, s, ['t', 'y', 'u', 'dual', 'dynamical_parameters', 'const'])
    perm = list(range(nu))
    if w.mode == 'conc' and kind != 'array':
        w.rng.shuffle(perm)
    m = M(control_idxs=[n + i for i in perm])
    if kind == 'default':
        s2 = m.map(s)
        cc = [0.0] * nu
    elif kind == 'scalar':
        c = w.real('c')
        s2 = m.map(s, control_costate=c)
        cc = [c] * nu
    else:
        cc = [w.real('c%d' % i) for i in range(nu)]
        s2 = m.map(s, control_costate=np.array(cc, dtype=object) if w.symbolic else np.array(cc))
    w.ensure_eq('map: states first', s2.y[:, :n], old['y'])
    w.ensure_eq('map: costates first', s2.dual[:, :n], old['dual'])
    w.ensure_eq('map: dual width', s2.dual.shape[1], n + nu)
    j = w.int_in('j', 0, N - 1)
    for i in range(nu):
        w.ensure_eq('map: control %d column' % i, s2.y[:, n + perm[i]], old['u'][:, i])
        w.ensure_eq('map: control costate %d in the same column' % i, s2.dual[j, n + perm[i]], cc[i])
    s3 = m.inv_map(s2)
    same(w, 'round trip', s3, old, ['t', 'y', 'u', 'dual', 'dynamical_parameters', 'const'])


@contract('C01', 'sym bsym conc', trials=60, budget=40, bound='nodes<=3, states<=3',
          funcs=['SquashToBVPMapper.map', 'SquashToBVPMapper.inv_map'])
def squash_map_is_inverted(w):
    M = w.get(TM, 'SquashToBVPMapper')
    s, N, n = base_sol(w)
    nn = w.dim('nnu', 0, 3)
    s.nondynamical_parameters = w.arr('nu', nn)
    old = keep(w, s, ['t', 'y', 'dual', 'dynamical_parameters', 'nondynamical_parameters', 'const'])
    m = M(slice(n, n + n), slice(0, 0), slice(nn, nn))
    s2 = m.map(s)
    w.ensure_eq('map: states then costates', s2.y[:, :n], old['y'])
    w.ensure_eq('map: costates after states', s2.y[:, n:], old['dual'])
    w.ensure_eq('map: multipliers kept', s2.nondynamical_parameters, old['nondynamical_parameters'])
    s3 = m.inv_map(s2)
    same(w, 'round trip', s3, old, ['t', 'y', 'dual', 'dynamical_parameters', 'nondynamical_parameters', 'const'])


@contract('C01', 'sym bsym conc', trials=40, budget=40, bound='2 states, 2 controls, bounds const or state dependent',
          funcs=['EpsTrigMapper.map', 'EpsTrigMapper.inv_map', 'EpsTrigMapper.__init__'])
def eps_trig_map_is_inverted(w):
    import sympy
    M = w.get(TM, 'EpsTrigMapper')
    N = w.dim('N', 1, 3)
    s = new_sol(w)
    s.t = w.times('t', N)
    s.y = w.arr('y', N, 2)
    s.u = w.arr('u', N, 2)
    s.dynamical_parameters = w.arr('p', 1)
    s.const = w.arr('k', 2)
    ci = w.choice('control', [0, 1])
    t, x1, x2, p, a, b = sympy.symbols('t x1 x2 p a b')
    kind = w.choice('bounds', ['const', 'state', 'mixed'])
    lo_e, hi_e = {'const': (a, b), 'state': (-x1 ** 2 - a, x1 ** 2 + 1 + b), 'mixed': (a + p, b + x2)}[kind]
    k, pv = s.const, s.dynamical_parameters

    def bounds(i):
        X1, X2 = s.y[i, 0], s.y[i, 1]
        return {'const': (k[0], k[1]), 'state': (-X1 * X1 - k[0], X1 * X1 + 1 + k[1]),
                'mixed': (k[0] + pv[0], k[1] + X2)}[kind]
    # precondition: every control value lies strictly within its bounds
    if w.mode == 'sym':
        from belv import terms as T
        import z3
        c = T.ctx()
        ub, yb = s.u.copy(), s.y.copy()
        zN = N.z

        def pre(i):
            X1, X2 = yb.at(i, 0), yb.at(i, 1)
            K = [k.at(0), k.at(1)]
            P = pv.at(0)
            lo, hi = {'const': (K[0], K[1]), 'state': (-X1 * X1 - K[0], X1 * X1 + 1 + K[1]),
                      'mixed': (K[0] + P, K[1] + X2)}[kind]
            return z3.Implies(z3.And(i >= 0, i < zN), z3.And(lo < ub.at(i, ci), ub.at(i, ci) < hi))
        c.forall(pre)
    else:
        for i in range(N):
            lo, hi = bounds(i)
            if w.symbolic:
                w.assume(lo < s.u[i, ci])
                w.assume(s.u[i, ci] < hi)
            else:
                if hi - lo < 0.05:
                    return
                s.u[i, ci] = lo + (hi - lo) * w.rng.uniform(0.02, 0.98)
    old = keep(w, s, ['t', 'y', 'u', 'dynamical_parameters', 'const'])
    m = M(ci, lo_e, hi_e, t, [x1, x2], [p], [a, b])
    s2 = m.map(s)
    w.ensure_eq('map: other control kept', s2.u[:, 1 - ci], old['u'][:, 1 - ci])
    j = w.int_in('j', 0, N - 1)
    s3 = m.inv_map(s2)
    same(w, 'round trip', s3, old, ['t', 'y', 'dynamical_parameters', 'const'])
    w.ensure_eq('round trip: other control', s3.u[:, 1 - ci], old['u'][:, 1 - ci])
    lo, hi = bounds(j)
    off, uj, back = (lo + hi) / 2, old['u'][j, ci], s3.u[j, ci]
    # exact inverse, or exactly the recorded finding C01-epstrig-map (half the distance from the middle)
    near = (lambda x, y: x == y) if w.symbolic else (lambda x, y: abs(x - y) <= 1e-8 * (1 + abs(y)))
    w.ensure('round trip: control comes back (or the recorded finding)', near(back, uj) | near(back, off + (uj - off) / 2),
             '%r vs %r' % (back, uj))
    # the inverse map alone is the bounded control  middle + half range * sin
    s4 = new_sol(w)
    s4.t, s4.y, s4.dynamical_parameters, s4.const = s.t, s.y, pv, k
    s4.u = w.arr('ut', N, 2)
    ut = s4.u[j, ci]
    s5 = m.inv_map(s4)
    w.ensure_eq('inverse: bounded control value', s5.u[j, ci], off + (hi - lo) / 2 * np.sin(ut))


@contract('C01', 'conc', trials=1, funcs=['EpsTrigMapper.map'], finding='C01-epstrig-map')
def eps_trig_round_trip_is_exact(w):
    import sympy
    M = w.get(TM, 'EpsTrigMapper')
    t, x, a = sympy.symbols('t x a')
    s = new_sol(w)
    s.t, s.y, s.u = np.array([0., 1.]), np.zeros((2, 1)), np.array([[0.5], [-0.5]])
    s.dynamical_parameters, s.const = np.array([]), np.array([1.])
    m = M(0, -a, a, t, [x], [], [a])
    s3 = m.inv_map(m.map(copy.deepcopy(s)))
    w.ensure_eq('round trip.u', s3.u, s.u)


@contract('C01', 'bsym conc', trials=40, budget=20, bound='chains of up to 4 mappings',
          funcs=['Problem.map_sol', 'Problem.inv_map_sol'])
def chain_applies_maps_in_order_and_inverses_in_reverse(w):
    P = w.get('beluga.symbolic.data_classes.symbolic_problem', 'Problem')
    n = w.dim('len', 0, 4)

    class Rec:
        def __init__(self, i):
            self.i = i

        def map(self, sol):
            return sol + (('m', self.i),)

        def inv_map(self, sol):
            return sol + (('i', self.i),)
    p = P()
    p.sol_map_chain = [Rec(i) for i in range(n)]
    fwd = p.map_sol(())
    w.ensure('forward order', list(fwd) == [('m', i) for i in range(n)])
    back = p.inv_map_sol(())
    w.ensure('inverse maps in reverse order', list(back) == [('i', i) for i in reversed(range(n))])
    back = p.map_sol((), inverse=True)
    w.ensure('inverse flag', list(back) == [('i', i) for i in reversed(range(n))])


@contract('C01', 'sym bsym conc', trials=30, budget=40, bound='2 states, 1 control, 1 quadrature',
          funcs=['DualizeMapper.map', 'DualizeMapper.inv_map', 'compile_cost'])
def dualize_map_keeps_solution_and_attaches_cost(w):
    import sympy
    M = w.get(TM, 'DualizeMapper')
    P = w.get('beluga.symbolic.data_classes.symbolic_problem', 'Problem')
    withq = w.choice('quad', [False, True])
    p = P()
    p.independent('t', 's').state('x', 'v*p1', 'm').state('v', 'u', 'm/s').control('u', '1')
    p.parameter('p1', '1').constant('c', 1, '1').constant('d', 2, '1')
    if withq:
        p.quad('q', 'v', 'm')
    p.set_cost(initial='x*c + v' + ('+ 5*q' if withq else ''), path='u**2*d + x*p1',
               terminal='x**2 - 3*v*c' + ('- q*d' if withq else ''), units='1')
    for st in [p.cost]:
        st.sympify_self()
    nu_len = w.dim('nu', 0, 3)
    m = M(2, nu_len, p)
    N = w.dim('N', 2, 4)
    s = new_sol(w)
    s.t = w.times('t', N)
    s.y = w.arr('y', N, 2)
    s.dual = w.arr('lam', N, 2)
    s.u = w.arr('u', N, 1)
    if withq:
        s.q = w.arr('q', N, 1)
    s.dynamical_parameters = w.arr('p', 1)
    s.const = w.arr('k', 2)
    fields = ['t', 'y', 'u', 'q', 'dual', 'dynamical_parameters', 'const']
    old = keep(w, s, fields)
    s2 = m.map(s)
    same(w, 'map keeps', s2, old, fields)
    w.ensure_eq('map: multiplier count', s2.nondynamical_parameters.shape[0], nu_len)
    s3 = m.inv_map(s2)
    same(w, 'round trip', s3, old, fields)
    w.ensure_eq('multipliers removed', len(s3.nondynamical_parameters), 0)
    c, d = old['const'][0], old['const'][1]
    pp = old['dynamical_parameters'][0]
    y0, yf = old['y'][0, :], old['y'][N - 1, :]
    init = y0[0] * c + y0[1] + (5 * old['q'][0, 0] if withq else 0)
    term = yf[0] * yf[0] - 3 * yf[1] * c - (old['q'][N - 1, 0] * d if withq else 0)
    path = old['u'][:, 0] * old['u'][:, 0] * d + old['y'][:, 0] * pp
    from belv.contracts.common import quadrature
    w.ensure_eq('cost is initial + terminal + integral of path', s3.cost, init + term + quadrature(w, path, old['t']))


@contract('C01', 'conc', trials=60, budget=60, funcs=['Problem.map_sol', 'Problem.inv_map_sol', 'every mapper of the chain'])
def whole_chain_round_trip(w):
    kind = w.choice('ocp', OCP_KINDS)
    opts = w.choice('opts', [dict(control_method='differential', method='traditional'),
                             dict(control_method='algebraic', method='traditional'),
                             dict(control_method='differential', method='diffyg'),
                             dict(control_method='algebraic', method='diffyg')])
    if kind == 'epstrig':       # a trigonometric control law has no closed form
        opts = dict(opts, control_method='differential')
    ocp, bvp = build_bvp(w, kind, opts)
    s = rand_sol_for(w, ocp, bvp)
    s0 = copy.deepcopy(s)
    s2 = bvp.map_sol(copy.deepcopy(s))
    n = s0.y.shape[1]
    w.ensure_eq('solver form: user states first', s2.y[:, :n], s0.y)
    w.ensure_eq('solver form: time is the next state', s2.y[:, n], s0.t)
    w.ensure_eq('solver form: number of states', s2.y.shape[1], len(bvp.states))
    w.ensure_eq('solver form: number of parameters', len(s2.dynamical_parameters), len(bvp.parameters))
    w.ensure_eq('solver form: grid from 0', s2.t[0], 0.0)
    w.ensure_eq('solver form: grid to 1', s2.t[-1], 1.0)
    w.ensure_eq('solver form: duration last parameter', s2.dynamical_parameters[-1], s0.t[-1] - s0.t[0])
    s3 = bvp.inv_map_sol(copy.deepcopy(s2))
    for f in ['t', 'y', 'dual', 'dynamical_parameters', 'const']:
        w.ensure_eq('round trip.' + f, getattr(s3, f), getattr(s0, f), tol=1e-7)
    if opts['control_method'] == 'differential':
        ue = s0.u
        if kind == 'epstrig' and not np.allclose(s3.u, s0.u):     # recorded finding C01-epstrig-map
            ue = 0.5 + (s0.u - 0.5) / 2
        w.ensure_eq('round trip.u', s3.u, ue, tol=1e-7)


@contract('C01', 'sym bsym conc', trials=40, budget=40, bound='nodes<=3, states<=3, parameters<=2, quadratures<=2',
          funcs=['MF.map', 'MF.inv_map', 'MF.__init__'])
def reduction_map_is_inverted(w):
    """symmetry reduction: the conserved quantity becomes a parameter, the symmetric coordinate a quadrature"""
    M = w.get(TM, 'MF')
    N = w.dim('N', 2, 3)
    n = w.dim('n', 2, 3)
    i = w.choice('i', [0, 1])
    loc = w.choice('conserved', ['costates', 'states'])
    other = 'states' if loc == 'costates' else 'costates'
    s = new_sol(w)
    s.t = w.times('t', N)
    s.y = w.arr('y', N, n)
    s.dual = w.arr('lam', N, n)
    c = w.real('c')
    (s.dual if loc == 'costates' else s.y)[:, i] = c
    noq = w.choice('noquads', [True, False])
    s.q = np.array([]) if noq else w.arr('q', N, w.dim('nq', 1, 2))
    s.dynamical_parameters = w.arr('p', w.dim('np', 0, 2))
    s.const = w.arr('k', 3)
    w.assume(s.const[0] > 0.5)
    w.assume(s.const[2] > 0.5)
    sel = (lambda y, d: d) if loc == 'costates' else (lambda y, d: y)
    alt = (lambda y, d: y) if loc == 'costates' else (lambda y, d: d)
    o = 1 - i       # another component, at position 0 of the reduced vector when i = 0 and 0 when i = 1

    def fn_p(y, d, p, k):
        return sel(y, d)[i] * k[0] + k[1]

    def fn_p_inv(y, d, p, k):
        return (p[-1] - k[1]) / k[0]

    def fn_q(y, d, p, k):
        return alt(y, d)[i] * k[2] + p[-1] * alt(y, d)[o]

    def fn_q_inv(y, d, q, p, k):
        return (q[-1] - p[-1] * alt(y, d)[0]) / k[2]
    fields = ['t', 'y', 'dual', 'dynamical_parameters', 'const'] + ([] if noq else ['q'])
    old = keep(w, s, fields)
    k = old['const']
    m = M({'location': loc, 'index': i}, {'location': other, 'index': i}, fn_p, fn_q, fn_p_inv, fn_q_inv)
    s2 = m.map(s)
    val = c * k[0] + k[1]
    npar = old['dynamical_parameters'].shape[0]
    w.ensure_eq('map: conserved value is the last parameter', s2.dynamical_parameters[npar], val)
    w.ensure_eq('map: one more parameter', s2.dynamical_parameters.shape[0], npar + 1)
    w.ensure_eq('map: other parameters', s2.dynamical_parameters[:npar], old['dynamical_parameters'])
    for f in ('y', 'dual'):
        w.ensure_eq('map: one column fewer.' + f, getattr(s2, f).shape[1], n - 1)
        w.ensure_eq('map: columns before.' + f, getattr(s2, f)[:, :i], old[f][:, :i])
        w.ensure_eq('map: columns after.' + f, getattr(s2, f)[:, i:], old[f][:, i + 1:])
    a = alt(old['y'], old['dual'])
    nq = s2.q.shape[1]
    w.ensure_eq('map: number of quadratures', nq, 1 if noq else old['q'].shape[1] + 1)
    w.ensure_eq('map: symmetric coordinate is the last quadrature', s2.q[:, nq - 1], a[:, i] * k[2] + val * a[:, o])
    s3 = m.inv_map(s2)
    same(w, 'round trip', s3, old, fields)


@contract('C01', 'conc', trials=12, budget=80, funcs=['MishchenkoFomenko.transformation', 'MF.map', 'MF.inv_map', 'Problem.map_sol', 'Problem.inv_map_sol'])
def reduced_chain_round_trip(w):
    kind = w.choice('kind', SYMMETRIC_KINDS)
    pre, ind = w.get(MF, 'make_preprocessor', 'make_indirect_method')
    p, sy = symmetric_ocp(w, kind)
    ocp = pre()(p)
    names = [st.name for st in ocp.states]
    user = copy.deepcopy(ocp)
    bvp = ind(copy.deepcopy(ocp), method='diffyg', control_method='differential', reduction=True)(ocp)
    s = rand_sol_for(w, user, bvp)
    for nm in sy:                                   # along a solution the costate of a symmetric state is constant
        s.dual[:, names.index(nm)] = s.dual[0, names.index(nm)]
    s0 = copy.deepcopy(s)
    s2 = bvp.map_sol(copy.deepcopy(s))
    w.ensure_eq('solver form: number of states', s2.y.shape[1], len(bvp.states))
    w.ensure_eq('solver form: number of parameters', len(s2.dynamical_parameters), len(bvp.parameters))
    w.ensure_eq('solver form: number of quadratures', s2.q.shape[1], len(bvp.quads))
    for j, nm in enumerate([st.name for st in bvp.states]):
        if nm in names:
            w.ensure_eq('solver form: state column', s2.y[:, j], s0.y[:, names.index(nm)])
        elif nm[5:] in names and nm.startswith('_lam_'):
            w.ensure_eq('solver form: costate column', s2.y[:, j], s0.dual[:, names.index(nm[5:])])
    s3 = bvp.inv_map_sol(copy.deepcopy(s2))
    for f in ['t', 'y', 'u', 'dual', 'dual_t', 'dynamical_parameters', 'const']:
        w.ensure_eq('round trip.' + f, getattr(s3, f), getattr(s0, f), tol=1e-7)
