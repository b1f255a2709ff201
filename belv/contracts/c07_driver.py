"""C07: run_continuation_set."""
import copy
from types import SimpleNamespace as NS
import numpy as np
from belv.world import contract
from belv.contracts.common import new_sol, CO
from belv.contracts.c03_manual import bvp_like, NAMES, lin

SETTERS = ['set_derivative_function', 'set_derivative_jacobian', 'set_quadrature_function',
           'set_boundarycondition_function', 'set_boundarycondition_jacobian', 'set_inequality_constraint_function']
ATTRS = ['deriv_func', 'deriv_func_jac', 'quad_func', 'bc_func', 'bc_func_jac', 'ineq_constraints']
F = ['t', 'y', 'q', 'u', 'dual', 'dynamical_parameters', 'nondynamical_parameters', 'const']


class FakeSolver:
    """an arbitrary solver: returns an arbitrary new trajectory for every guess; uses its argument destructively"""

    def __init__(self, w, m, fails, withq):
        self.w, self.m, self.fails, self.withq = w, m, fails, withq
        self.given, self.guesses, self.results, self.handed, self.kw = {}, [], [], [], []
        if w.rng is not None and not w.symbolic and w.rng.random() < 0.5:
            # a solver object that solved another problem before
            for s in SETTERS:
                getattr(self, s)(lambda *a: None)

    def solve(self, sol, **kw):
        w = self.w
        self.kw.append(kw)
        n = len(self.guesses)
        self.guesses.append({f: getattr(sol, f).copy() for f in F})
        self.seen = dict(self.given) if not hasattr(self, 'seen') else self.seen
        r = copy.deepcopy(sol)
        for f, shape in (('t', (2,)), ('y', (2, 1)), ('u', (2, 1)), ('dual', (2, 1)), ('dynamical_parameters', (2,)),
                         ('nondynamical_parameters', (1,))):
            setattr(r, f, w.arr('%s_%d' % (f, n), *shape))
        if self.withq:
            r.q = w.arr('q_%d' % n, 2, 1)
        r.converged = not self.fails(n)
        self.results.append({f: getattr(r, f).copy() for f in F + []})
        self.results[-1]['converged'] = r.converged
        # scribble over the guess and over the results handed out before
        for o in [sol] + self.handed:
            for f in F:
                a = getattr(o, f)
                if a.size:
                    a[(0,) * a.ndim] = a[(0,) * a.ndim] + 9
        self.handed.append(r)
        return {'sol': r, 'niter': 3, 'success': r.converged, 'message': ''}


def _setter(name):
    def f(self, fn):
        self.given[name] = fn
        if name == 'set_boundarycondition_function':
            self.boundarycondition_function = fn
    return f


for _s in SETTERS:
    setattr(FakeSolver, _s, _setter(_s))


def factor(w, v, c):
    return v * v + c if w.symbolic else c + v * v / (1 + v * v)      # bounded, so that long runs stay in range


def problem(w, names, autoscale):
    fp = NS(**{a: (lambda *x, _a=a: None) for a in ATTRS})
    fp.bc_func = lambda *a: [0.0, 1.0]
    if not w.symbolic:
        for a in ('deriv_func_jac', 'quad_func', 'bc_func_jac', 'ineq_constraints'):
            if w.rng.random() < 0.4:        # a problem need not have these
                setattr(fp, a, None)
    fp.log = []

    def factors(s):
        # the factors depend on the trajectory they are computed from
        return (factor(w, s.y[0, 0], 2), factor(w, s.const[0], 3))

    def scale(s, fac, inv=False):
        r = copy.deepcopy(s)
        op = (lambda a, b: a * b) if inv else (lambda a, b: a / b)
        r.y, r.const = op(r.y, fac[0]), op(r.const, fac[1])
        return r
    fp.compute_scale_factors, fp.scale_sol = factors, scale
    b = bvp_like(names)
    b.functional_problem = fp
    return b, fp


@contract('C07', 'bsym conc', trials=150, budget=80, bound='<=2 steps of <=2 cases, 2 constants, one failing case (conc: 3 steps, 5 cases)',
          funcs=['run_continuation_set', 'ManualStrategy.init', 'ContinuationStrategy.next', 'ContinuationStrategy.add_gamma'])
def driver_solves_in_order_and_records(w):
    run, Man, Bis, Prod = w.get(CO, 'run_continuation_set', 'ManualStrategy', 'BisectionStrategy', 'ProductStrategy')
    m = 2
    names = NAMES[:m]
    autoscale = w.choice('autoscale', [False, True])
    withq = autoscale if w.symbolic else w.choice('withq', [False, True])
    nsteps = w.choice('nsteps', [1, 2]) if w.symbolic else w.rng.randint(1, 3)
    steps, plan = [], []
    for i in range(nsteps):
        kind = w.choice('kind%d' % i, ['manual', 'product'] if w.symbolic else ['manual', 'bisection', 'product'])
        n = 2 if w.symbolic else w.rng.randint(2, 4)
        tg = w.real('target%d' % i)
        var = i % m
        if kind == 'product':
            st = Prod()
            st.num_subdivisions(n)
        else:
            st = (Man if kind == 'manual' else Bis)()
            st.num_cases(n)
        st.const(names[var], tg)
        steps.append(st)
        plan.append((kind, n, var, tg))
    # one failing case (bisection or product only), never the first of a step
    fail_at = set()
    base = 0
    for kind, n, var, tg in plan:
        if kind == 'bisection' and w.rng.random() < 0.5:
            fail_at.add(base + w.rng.randrange(1, n))
            base += 2               # one inserted case, and the failed one again
        elif kind == 'product' and not w.symbolic and w.rng.random() < 0.4:
            fail_at.add(base + w.rng.randrange(1, n))
        base += n
    bvp, fp = problem(w, names, autoscale)
    alg = FakeSolver(w, m, lambda n: n in fail_at, withq)
    g0 = new_sol(w)
    g0.t, g0.y, g0.u, g0.dual = w.arr('t0', 2), w.arr('y0', 2, 1), w.arr('u0', 2, 1), w.arr('dual0', 2, 1)
    if withq:
        g0.q = w.arr('q0', 2, 1)
    g0.dynamical_parameters, g0.nondynamical_parameters, g0.const = w.arr('p0', 2), w.arr('n0', 1), w.arr('k0', m)
    start = {f: getattr(g0, f).copy() for f in F}
    pool = object()
    out = run(alg, steps, g0, bvp, pool, autoscale)
    for f in F:
        w.ensure_eq('the guess passed in is unchanged: ' + f, getattr(g0, f), start[f])
    for s, a in zip(SETTERS, ATTRS):
        w.ensure('solver given %s before the first case' % a, alg.seen.get(s) is getattr(fp, a))
    w.ensure('every case gets the pool', all(k.get('pool') is pool for k in alg.kw))
    w.ensure_eq('one list per step', len(out), nsteps)
    exp_n = [q[1] for q in plan] if not any(k == 'bisection' for k, *_ in plan) else None
    if exp_n:
        w.ensure('one record per case', [len(o) for o in out] == exp_n, '%s vs %s' % ([len(o) for o in out], exp_n))
    w.ensure_eq('every solved case is recorded once', sum(len(o) for o in out), len(alg.results))
    flat = [s for o in out for s in o]
    if len(flat) != len(alg.results):
        return
    # what the solver returned for each case, in original units
    want = []
    for g, r in zip(alg.guesses, alg.results):
        q = dict(r)
        want.append(q)
    gs = []           # guesses in original units
    idx = 0
    last = start
    for si, (kind, n, var, tg) in enumerate(plan):
        first = True
        for ci in range(len(out[si])):
            rec, r, g = out[si][ci], want[idx], alg.guesses[idx]
            # spec of the guess: constants of this case; trajectory of the first case is the step's start
            if kind != 'bisection':
                kk = last0['const'] if not first else last['const']
                if first:
                    last0, prev_c = last, last['const']
                val = [prev_c[i] for i in range(m)]
                val[var] = lin(last0['const'][var], tg, ci, n)
                if autoscale and not w.symbolic:
                    # the unscaled guess: nearest converged record of this step (the start while there is none)
                    cand = [o for o in out[si][:ci] if o.converged]
                    dist = [sum(abs(o.const[i] - val[i]) for i in range(m)) for o in cand]
                    if not cand or sorted(dist)[0] < (sorted(dist) + [9e9])[1] - 1e-9:
                        gy = cand[int(np.argmin(dist))].y if cand else last0['y']
                        fac = (factor(w, gy[0, 0], 2), factor(w, val[0], 3))
                        w.ensure_eq('every case: solver receives the scaled guess', g['y'], gy / fac[0])
                        w.ensure_eq('every case: solver receives scaled constants', g['const'], np.array(val) / fac[1])
                        w.ensure_eq('every case: recorded in original units', rec.y, r['y'] * fac[0])
                        w.ensure_eq('every case: recorded constants in original units', rec.const, r['const'] * fac[1])
                elif not autoscale:
                    for i in range(m):
                        w.ensure_eq('guess constants of the case', g['const'][i], val[i])
            if first:
                if kind == 'bisection':
                    last0 = last
                if not autoscale:
                    for f in F:
                        if f != 'const':
                            w.ensure_eq('step starts from the last solution of the step before: ' + f, g[f], last[f])
                else:
                    fac = (factor(w, last['y'][0, 0], 2), factor(w, last['const'][0], 3))
                    w.ensure_eq('solver receives the scaled guess', g['y'] * fac[0], last['y'])
                    w.ensure_eq('solver receives scaled constants', g['const'] * fac[1], last['const'])
                    w.ensure_eq('recorded in original units', rec.y, r['y'] * fac[0])
                    w.ensure_eq('recorded constants in original units', rec.const, last['const'])
            for f in F:
                if not autoscale or f not in ('y', 'const'):
                    w.ensure_eq('record equals what the solver returned: ' + f, getattr(rec, f), r[f])
            w.ensure('record keeps the convergence flag', rec.converged == r['converged'])
            last = {f: getattr(rec, f) for f in F}
            prev_c = last['const']
            first = False
            idx += 1
    # records are independent of each other
    if len(flat) > 1:
        keep = {f: getattr(flat[1], f).copy() for f in F}
        for f in F:
            a = getattr(flat[0], f)
            if a.size:
                a[(0,) * a.ndim] = a[(0,) * a.ndim] + 5
        for f in F:
            w.ensure_eq('records are independent: ' + f, getattr(flat[1], f), keep[f])


@contract('C07', 'bsym conc', trials=60, budget=40, bound='one case, no continuation steps',
          funcs=['run_continuation_set'])
def driver_without_steps(w):
    run = w.get(CO, 'run_continuation_set')
    autoscale = w.choice('autoscale', [False, True])
    withq = w.choice('withq', [False, True])
    bvp, fp = problem(w, NAMES[:2], autoscale)
    fails = w.choice('fails', [False, True])
    alg = FakeSolver(w, 2, lambda n: fails, withq)
    g0 = new_sol(w)
    g0.t, g0.y, g0.u, g0.dual = w.arr('t0', 2), w.arr('y0', 2, 1), w.arr('u0', 2, 1), w.arr('dual0', 2, 1)
    g0.dynamical_parameters, g0.nondynamical_parameters, g0.const = w.arr('p0', 2), w.arr('n0', 1), w.arr('k0', 2)
    if withq:
        g0.q = w.arr('q0', 2, 1)
    y0, k0 = g0.y.copy(), g0.const.copy()
    out = run(alg, None, g0, bvp, None, autoscale)
    for s, a in zip(SETTERS, ATTRS):
        w.ensure('solver given %s before the first case' % a, alg.seen.get(s) is getattr(fp, a))
    w.ensure('one list with one solution', len(out) == 1 and len(out[0]) == 1)
    rec, r, g = out[0][0], alg.results[0], alg.guesses[0]
    fac = (factor(w, y0[0, 0], 2), factor(w, k0[0], 3)) if autoscale else (1, 1)
    w.ensure_eq('solver receives the (scaled) guess', g['y'] * fac[0], y0)
    w.ensure_eq('solver receives the (scaled) constants', g['const'] * fac[1], k0)
    w.ensure_eq('recorded solution in original units', rec.y, r['y'] * fac[0])
    w.ensure_eq('recorded constants in original units', rec.const, k0)
    for f in F:
        if f not in ('y', 'const'):
            w.ensure_eq('recorded: ' + f, getattr(rec, f), r[f])
    w.ensure('flag', rec.converged == (not fails))
    if not w.symbolic:
        alg2 = FakeSolver(w, 2, lambda n: fails, withq)
        w.ensure('no steps asked for: no list', run(alg2, [], g0, bvp, None, autoscale) == [] and not alg2.guesses)


@contract('C07', 'conc', trials=60, budget=40, funcs=['run_continuation_set', 'BisectionStrategy.next'])
def driver_with_bisection_reaches_the_target(w):
    run, Bis, Man = w.get(CO, 'run_continuation_set', 'BisectionStrategy', 'ManualStrategy')
    names = NAMES[:2]
    autoscale = w.choice('autoscale', [False, True])
    n = w.rng.randint(2, 5)
    nf = w.rng.randint(0, 3)
    st = Bis(initial_num_cases=n, max_divisions=8)
    st.num_cases(n)
    tg = w.real('target')
    st.const(names[1], tg)
    st2 = Man()
    st2.num_cases(2)
    tg2 = w.real('target2')
    st2.const(names[0], tg2)
    # failing cases: never the first, never two in a row, and always before the step is over
    bad, total, i = set(), n, 1
    for _ in range(nf):
        if i < total:
            i = w.rng.randrange(i, total)
            bad.add(i)
            total += 2
            i += 2
    bvp, fp = problem(w, names, autoscale)

    class Solver(FakeSolver):
        def solve(self, sol, **kw):
            o = FakeSolver.solve(self, sol, **kw)
            return o
    last_idx = [None]

    def fails(i):
        return i in bad
    alg = Solver(w, 2, fails, False)
    g0 = new_sol(w)
    g0.t, g0.y, g0.u, g0.dual = w.arr('t0', 2), w.arr('y0', 2, 1), w.arr('u0', 2, 1), w.arr('dual0', 2, 1)
    g0.dynamical_parameters, g0.nondynamical_parameters, g0.const = w.arr('p0', 2), w.arr('n0', 1), w.arr('k0', 2)
    out = run(alg, [st, st2], g0, bvp, None, autoscale)
    w.ensure_eq('cases plus one inserted per failure', len(out[0]), n + 2 * len(bad))
    w.ensure_eq('bisection step ends at the target', out[0][-1].const[1], tg)
    w.ensure_eq('next step starts there', out[1][0].const[1], tg)
    w.ensure_eq('next step starts at its current value', out[1][0].const[0], g0.const[0])
    w.ensure_eq('next step ends at its target', out[1][-1].const[0], tg2)
    w.ensure('flags recorded', [bool(s.converged) for s in out[0]] == [i not in bad for i in range(len(out[0]))])


@contract('C07', 'bsym conc', trials=40, budget=30, bound='<=3 steps of <=3 records',
          funcs=['postprocess_continuations'])
def postprocessing_maps_every_record_back(w):
    pp = w.get('beluga.beluga', 'postprocess_continuations')
    sizes = [w.choice('n%d' % i, [0, 1, 3]) for i in range(w.choice('steps', [0, 1, 2, 3]))]
    tag = iter(range(100))
    cs = [[NS(id=next(tag)) for _ in range(n)] for n in sizes]
    calls = []

    def inv(s):
        calls.append(s.id)
        return NS(id=s.id, mapped=True)
    out = pp(cs, inv)
    w.ensure('every record mapped back, in the same nesting and order',
             [[o.id for o in st] for st in out] == [[o.id for o in st] for st in cs]
             and all(getattr(o, 'mapped', False) for st in out for o in st))


@contract('C07', 'conc', trials=30, budget=20, funcs=['ContinuationList.add_step'])
def steps_run_in_the_order_added(w):
    CL, Man, Bis, Prod, Sp = w.get(CO, 'ContinuationList', 'ManualStrategy', 'BisectionStrategy', 'ProductStrategy',
                                   'SparseProductStrategy')
    cl = CL()
    got = []
    for i in range(w.dim('n', 0, 5)):
        nm, cls = w.choice('kind%d' % i, [('manual', Man), ('bisection', Bis), ('productspace', Prod), ('sparse_product', Sp),
                                          (None, Man)])
        if nm is None:
            o = Man()
            r = cl.add_step(o)
            w.ensure('the given step object is used', r is o)
        else:
            r = cl.add_step(nm)
            w.ensure('the named strategy is created', type(r) is cls)
        got.append(r)
    w.ensure('steps in the order added', list(cl) == got and len(cl) == len(got))
    w.ensure_raises('unknown strategy refused', lambda: cl.add_step('no such strategy'), ValueError)
    w.ensure('nothing added', len(cl) == len(got))
