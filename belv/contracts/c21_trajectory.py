"""C21: evaluating, indexing and measuring a trajectory."""
import numpy as np
from belv.world import contract
from belv.contracts.common import TR

F = ['Trajectory.__call__', 'Trajectory.set_interpolate_function', 'Trajectory.__new__', 'Trajectory.__init__']


def build(w, lo=2, hi=4):
    T = w.get(TR, 'Trajectory')
    N = w.dim('N', lo, hi)
    ny, nq, nu = w.dim('ny', 1, 3), w.dim('nq', 0, 3), w.dim('nu', 0, 3)
    t = w.times('t', N, ordered=True)
    if w.mode == 'conc' and w.choice('grid', ['forward', 'forward', 'backward']) == 'backward':
        t = t[::-1].copy()          # trajectories propagated backward run down their grid
    y, q, u = w.arr('y', N, ny), w.arr('q', N, nq), w.arr('u', N, nu)
    form = w.choice('constructed', ['arguments', 'attributes'])
    if form == 'arguments':
        g = T(t, y, q, u)
    else:
        g = T()
        g.t, g.y, g.q, g.u = t, y, q, u
    return g, N, t, y, q, u


def parts(w, nm, got, want):
    for k, a, b in zip('yqu', got, want):
        w.ensure_eq('%s: %s' % (nm, k), np.array(a, dtype=float) if not w.symbolic else a, b)


@contract('C21', 'sym bsym conc', funcs=F, trials=80, budget=60, bound='nodes 2..4, components <=3',
          assumes=['scipy.interpolate.interp1d(kind=linear): blend of bracketing samples, error outside'])
def a_node_returns_the_stored_row(w):
    g, N, t, y, q, u = build(w)
    i = w.int_in('i', 0, N - 1)
    parts(w, 'at a node', g(t[i]), (y[i], q[i], u[i]))


@contract('C21', 'sym bsym conc', funcs=F, trials=80, budget=60, bound='nodes 2..4, components <=3')
def between_nodes_is_the_linear_blend(w):
    g, N, t, y, q, u = build(w)
    i = w.int_in('i', 0, N - 2)
    w.mention(i + 1)
    a = w.real('a', 0, 1)
    s = t[i] + a * (t[i + 1] - t[i])
    mix = lambda z: z[i] + a * (z[i + 1] - z[i])
    parts(w, 'between nodes', g(s), (mix(y), mix(q), mix(u)))


@contract('C21', 'bsym conc', funcs=F, trials=60, budget=60, bound='nodes 2..3, components <=2')
def results_follow_the_current_data(w):
    g, N, t, y, q, u = build(w, 2, 3)
    g(t[0])
    i = w.int_in('i', 0, N - 1)
    y2, q2, u2 = w.arr('y2', N, 2), w.arr('q2', N, 1), w.arr('u2', N, 2)
    how = w.choice('how', ['replaced', 'in place'])
    if how == 'replaced':
        g.y, g.q, g.u = y2, q2, u2
        parts(w, 'after replacing the data', g(t[i]), (y2[i], q2[i], u2[i]))
        t2 = w.times('t2', N)
        g.t = t2
        parts(w, 'after replacing the times', g(t2[i]), (y2[i], q2[i], u2[i]))
    else:
        g.y[i] = w.arr('r', int(y.shape[1]))
        parts(w, 'after writing into the data', g(t[i]), (y[i], q[i], u[i]))
        ti, yi, qi, ui = g[i]
        parts(w, 'indexing after writing', (yi, qi, ui), (y[i], q[i], u[i]))


@contract('C21', 'sym bsym conc', funcs=['Trajectory.__getitem__', 'Trajectory.__len__'], trials=60, budget=40, bound='nodes 2..4, components <=3')
def indexing_returns_the_stored_rows(w):
    g, N, t, y, q, u = build(w)
    i = w.int_in('i', 0, N - 1)
    tv, yv, qv, uv = g[i]
    w.ensure_eq('time', tv, t[i])
    parts(w, 'row', (yv, qv, uv), (y[i], q[i], u[i]))
    tv, yv, qv, uv = g[-1]
    w.ensure_eq('last time', tv, t[N - 1])
    parts(w, 'last row', (yv, qv, uv), (y[N - 1], q[N - 1], u[N - 1]))
    if w.mode != 'sym':
        w.ensure('length is the number of nodes', len(g) == N)
        tv, yv, qv, uv = g[1:]
        w.ensure_eq('slice of times', tv, t[1:])
        parts(w, 'slice', (yv, qv, uv), (y[1:], q[1:], u[1:]))
        w.ensure_raises('index past the end refused', lambda: g[N], IndexError)
    else:
        n = type(g).__len__
        from belv import rt
        w.ensure_eq('length is the number of nodes', rt.b_len(g), N)


@contract('C21', 'bsym conc', funcs=F + ['Trajectory.__getitem__', 'Trajectory.__len__'], trials=60, budget=40, bound='nodes 2..3')
def one_dimensional_and_absent_components(w):
    """histories given as plain vectors, and parts that were never given"""
    T = w.get(TR, 'Trajectory')
    N = w.dim('N', 2, 3)
    t = w.times('t', N)
    y = w.arr('y', N)
    kind = w.choice('kind', ['y', 'yq', 'yqu', 'yu', 'empty'])
    q = w.arr('q', N) if 'q' in kind else np.array([])
    u = w.arr('u', N) if 'u' in kind else np.array([])
    if kind == 'empty':
        g = T()
        for z in g(w.real('s')):
            w.ensure('nothing stored: empty', np.size(z) == 0)
        w.ensure('no nodes', len(g) == 0)
        for z in g[0]:
            w.ensure('nothing stored: empty row', np.size(z) == 0)
        return
    g = T(t, y, q, u)
    i = w.int_in('i', 0, N - 1)
    yv, qv, uv = g(t[i])
    one = lambda z: np.reshape(z, -1)
    w.ensure_eq('y', one(yv), one(y[i]))
    w.ensure_eq('q', one(qv), one(q[i]) if 'q' in kind else np.array([]))
    w.ensure_eq('u', one(uv), one(u[i]) if 'u' in kind else np.array([]))
    _, yi, qi, ui = g[i]
    w.ensure_eq('row y', yi, y[i])
    w.ensure('row q absent', 'q' in kind or np.size(qi) == 0)
    w.ensure('row u absent', 'u' in kind or np.size(ui) == 0)


@contract('C21', 'bsym conc', funcs=F, trials=60, budget=40, bound='nodes 2..3, 2 query times')
def many_times_at_once(w):
    g, N, t, y, q, u = build(w, 2, 3)
    yv, qv, uv = g(t)
    sh = lambda z, n: np.reshape(np.asarray(z), (N, n))
    w.ensure_eq('all nodes: y', sh(yv, y.shape[1]), y)
    if q.shape[1]:
        w.ensure_eq('all nodes: q', sh(qv, q.shape[1]), q)
    if u.shape[1]:
        w.ensure_eq('all nodes: u', sh(uv, u.shape[1]), u)


@contract('C21', 'conc', funcs=F, trials=40, budget=20)
def each_trajectory_has_its_own_data_and_interpolation(w):
    T = w.get(TR, 'Trajectory')
    N = w.dim('N', 4, 8)
    t = w.times('t', N)
    y = w.arr('y', N, 2)
    a = T(t, y)
    b = T(t, y, interpolation_type='cubic')
    c = T(t, 2 * y)
    i = w.int_in('i', 0, N - 1)
    w.ensure_eq('cubic at node', b(t[i])[0], y[i])
    w.ensure_eq('linear at node', a(t[i])[0], y[i])
    s = t[i] if i == N - 1 else 0.5 * (t[i] + t[i + 1])
    want = y[i] if i == N - 1 else 0.5 * (y[i] + y[i + 1])
    w.ensure_eq('linear', a(s)[0], want)
    w.ensure_eq('other data', c(s)[0], 2 * want)
    from scipy.interpolate import CubicSpline
    w.ensure_eq('cubic between', b(s)[0], CubicSpline(t, y, bc_type='not-a-knot')(s), tol=1e-7)
    b.set_interpolate_function('linear')
    w.ensure_eq('interpolation set anew', b(s)[0], want)
    b.set_interpolate_function(lambda t, y: (lambda s: y[0]))
    w.ensure_eq('own function', b(s)[0], y[0])
    w.ensure_raises('outside the interval', lambda: a(t[-1] + 1.0))
