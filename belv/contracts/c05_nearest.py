"""C05: choice of the guess, independence of copies, refusal to continue after a failure."""
import copy
import numpy as np
from belv.world import contract
from belv.contracts.common import new_sol, CO
from belv.contracts.c03_manual import bvp_like, start_sol, NAMES

STRATS = ['ManualStrategy', 'BisectionStrategy', 'ProductStrategy', 'SparseProductStrategy']


def make(w, kind, n=3):
    S = w.get(CO, kind)
    st = S()
    if kind == 'ProductStrategy':
        st.num_subdivisions(n)
    elif kind == 'SparseProductStrategy':
        st.num_subdivisions(((n,), (0,)))
    else:
        st.num_cases(n)
    return st


def dist(w, a, b, m):
    d = 0
    for i in range(m):
        d = d + abs(a[i] - b[i])
    return d


@contract('C05', 'bsym conc', trials=200, budget=60, bound='constants<=2, stored solutions<=4 (conc 3, 6)',
          funcs=['ContinuationStrategy.next', 'ContinuationStrategy.get_closest_gamma', 'gamma_norm', 'BisectionStrategy.next',
                 'ProductStrategy.next', 'SparseProductStrategy.next', 'ContinuationStrategy.add_gamma'])
def guess_is_the_nearest_converged_solution(w):
    kind = w.choice('strategy', STRATS)
    m = w.choice('m', [1, 2]) if w.symbolic else w.rng.randint(1, 3)
    names = NAMES[:m]
    v = m - 1
    tgt = w.real('target')
    long = not w.symbolic and w.rng.random() < 0.1
    n = 5 if w.symbolic else w.rng.randint(20, 130) if long else 7
    st = make(w, kind, n=n)
    st.const(names[v], tgt)
    s = start_sol(w, m)
    s.u = w.arr('u0', 2, 1)
    st.init(s, bvp_like(names))
    rec = [(w.snapshot(s.y), w.snapshot(s.const), False)]
    k = w.choice('records', [0, 1, 2, 3]) if w.symbolic else w.rng.randint(0, n - 2)
    for r in range(k):
        st.next()
        g = start_sol(w, m, 'r%d' % r)
        g.converged = True if r in (0, k - 1) else w.choice('flag%d' % r, [True, False])
        if not g.converged and kind in ('ManualStrategy', 'BisectionStrategy'):
            g.converged = True
        if not w.symbolic:
            g.converged = w.rng.choice([bool, np.bool_])(g.converged)      # solvers give flags of either type
        st.add_gamma(g)
        rec.append((w.snapshot(g.y), w.snapshot(g.const), g.converged))
    want = w.snapshot(rec[-1][1])
    g = st.next()
    # requested constants: the non-continued ones of the last record (checked in C03) and the schedule's value
    for i in range(m):
        if i != v:
            w.ensure_eq('constants replaced by the requested ones', g.const[i], want[i])
    step = n - 1
    w.ensure_eq('requested value', g.const[v] * step, rec[0][1][v] * step + (tgt - rec[0][1][v]) * k)
    conv = [(y, c) for y, c, f in rec if f]
    if not conv:
        w.ensure_eq('start guess while nothing has converged', g.y, rec[0][0])
        return
    ds = [dist(w, c, g.const, m) for _, c in conv]
    if not w.symbolic:
        best = min(ds)
        ok = any(d <= best + 1e-12 and np.array_equal(g.y, y) for d, (y, _) in zip(ds, conv))
        w.ensure('trajectory of the nearest converged solution', ok)
        return
    import z3
    from belv.terms import zb, zr, SB
    for d in ds:
        w.assume(d < 9e98)      # the marker the code uses for failed solutions
    alts = []
    for d, (y, _) in zip(ds, conv):
        eq = [zr(g.y[i, 0]) == zr(y[i, 0]) for i in range(2)]
        alts.append(z3.And(*(eq + [zr(d) <= zr(e) for e in ds])))
    w.ensure('trajectory of the nearest converged solution', SB(z3.Or(*alts)))


@contract('C05', 'sym bsym conc', trials=60, budget=60, bound='stored solutions<=3 (sym: any number of constants)',
          funcs=['ContinuationStrategy.get_closest_gamma', 'gamma_norm'])
def closest_index_minimises_the_distance(w):
    S, norm = w.get(CO, 'ManualStrategy', 'gamma_norm')
    w.attr(S, 'get_closest_gamma')
    m = w.dim('m', 1, 3)
    st = S()
    k = w.choice('records', [1, 2, 3]) if w.symbolic else w.rng.choice([1, 2, 3, 4, w.rng.randint(5, 130)])
    flags = [w.choice('f%d' % i, [True, False]) for i in range(k)]
    gs = []
    for i in range(k):
        g = new_sol(w)
        g.const = w.arr('c%d' % i, m)
        g.converged = flags[i] if w.symbolic else w.rng.choice([bool, np.bool_])(flags[i])
        gs.append(g)
    w.attr(st, 'gammas')
    st.gammas = gs
    want = w.arr('want', m)
    i = int(st.get_closest_gamma(want))
    w.ensure('an index of the list', 0 <= i < k)
    if any(flags):
        # distances stay below the marker used for failed solutions (precondition of the code)
        for j in range(k):
            w.assume(norm(gs[j].const, want) < 9e98)
        w.ensure('a converged one', flags[i])
        for j in range(k):
            if flags[j]:
                w.ensure('at least as near as every other converged one',
                         norm(gs[i].const, want) <= norm(gs[j].const, want) + (0 if w.symbolic else 1e-12))
    else:
        w.ensure_eq('the start guess while nothing converged', i, 0)


@contract('C05', 'bsym conc', trials=80, budget=40, bound='constants<=2, two recorded cases',
          funcs=['ContinuationStrategy.next', 'ContinuationStrategy.add_gamma', 'ContinuationStrategy.init'])
def guesses_and_records_are_independent_copies(w):
    kind = w.choice('strategy', STRATS)
    m = w.choice('m', [1, 2])
    names = NAMES[:m]
    st = make(w, kind, 5)
    st.const(names[0], w.real('target'))
    s = start_sol(w, m)
    s.dual = w.arr('dual', 2, 1)
    s.dynamical_parameters = w.arr('p', 2)
    s.q = w.arr('q', 2, 1)
    s.u = w.arr('u', 2, 1)
    s.nondynamical_parameters = w.arr('nu', 1)
    F = ['t', 'y', 'q', 'u', 'dual', 'dynamical_parameters', 'nondynamical_parameters']
    old = {f: w.snapshot(getattr(s, f)) for f in F}
    k0 = w.snapshot(s.const)
    st.init(s, bvp_like(names))

    def scribble(x):
        for f in F + ['const']:
            a = getattr(x, f)
            if a.ndim == 1:
                a[0] = a[0] + 5
            else:
                a[0, 0] = a[0, 0] + 5
    scribble(s)                     # the start solution changes afterwards
    g = st.next()
    for f in F:
        w.ensure_eq('guess unaffected by later change of the start: ' + f, getattr(g, f), old[f])
    w.ensure_eq('continued constant unaffected', g.const[0], k0[0])
    gold = {f: w.snapshot(getattr(g, f)) for f in F}
    gk = w.snapshot(g.const)
    g.converged = True
    st.add_gamma(g)
    scribble(g)                     # a recorded solution changes afterwards
    g2 = st.next()
    for f in F:
        w.ensure_eq('record unaffected by later change: ' + f, getattr(g2, f), gold[f])
    for i in range(1, m):
        w.ensure_eq('record constants unaffected', g2.const[i], gk[i])
    n2 = w.snapshot(g2.const)
    scribble(g2)                    # a guess changes afterwards (nothing new recorded)
    h = copy.deepcopy(g2)
    for f in F:
        setattr(h, f, gold[f].copy())
    h.const = n2
    h.converged = True
    st.add_gamma(h)
    g3 = st.next()
    for f in F:
        w.ensure_eq('stored solution unaffected by a changed guess: ' + f, getattr(g3, f), gold[f])


@contract('C05', 'bsym conc', trials=30, budget=30, bound='constants<=2',
          funcs=['ContinuationStrategy.next', 'BisectionStrategy.next', 'ProductStrategy.next', 'SparseProductStrategy.next'])
def refuses_after_failure_and_without_initialisation(w):
    kind = w.choice('strategy', STRATS)
    names = NAMES[:2]
    st = make(w, kind, 4)
    st.const(names[0], w.real('target'))
    w.ensure_raises('not initialised: refuses', st.next, (ValueError, RuntimeError))
    s = start_sol(w, 2)
    st.init(s, bvp_like(names))
    if kind == 'ManualStrategy':
        at = w.choice('fail_at', [0, 1, 2, 3])
    else:
        at = 0
    for c in range(at):
        g = st.next()
        g.converged = True
        st.add_gamma(g)
    g = st.next()
    g.converged = False
    st.add_gamma(g)
    w.ensure_raises('latest case failed: stops with an error', st.next, RuntimeError)
    w.ensure_raises('and keeps refusing', st.next, RuntimeError)
