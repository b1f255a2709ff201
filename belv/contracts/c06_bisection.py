"""C06: bisection refinement."""
import copy
import numpy as np
from belv.world import contract
from belv.contracts.common import new_sol, CO
from belv.contracts.c03_manual import bvp_like, start_sol, NAMES, lin, log10


def between(w, a, b, j, d, spacing):
    """j-th of d equal divisions from a to b"""
    if spacing == 'linear':
        return a + (b - a) * j / d
    if w.symbolic:
        return 10.0 ** (log10(a) + (log10(b) - log10(a)) * j / d)
    return a * (b / a) ** (j / d)


@contract('C06', 'bsym conc', trials=250, budget=60,
          bound='2 constants, initial cases<=3, divisions<=3, <=4 solved cases with any failure pattern (conc: 7, 4, 60)',
          funcs=['BisectionStrategy.next', 'BisectionStrategy.__init__', 'ManualStrategy.init', 'ContinuationStrategy.next'])
def any_failure_pattern(w):
    S = w.get(CO, 'BisectionStrategy')
    spacing = w.choice('spacing', ['linear', 'log'])
    pos = dict(lo=0.05) if spacing == 'log' else {}
    n = w.choice('n', [2, 3]) if w.symbolic else w.rng.randint(2, 7)
    d = w.choice('d', [2, 3]) if w.symbolic else w.rng.randint(2, 4)
    mx = w.choice('max_divisions', [1, 2]) if w.symbolic else w.rng.randint(1, 5)
    limit = 4 if w.symbolic else 60
    m = 3
    names = NAMES[:m]
    cont = [0, 2] if not w.symbolic else [0, 1]
    tg = w.arr('target', m, **pos)
    how = 0 if w.symbolic else w.rng.randint(0, 3)
    if how == 0:
        st = S(initial_num_cases=n, max_divisions=mx, num_divisions=d)
    else:
        cl = w.get(CO, 'ContinuationList')()
        st = cl.add_step('bisection', n, mx, d) if how == 1 else cl.add_step('bisection', n, max_divisions=mx, num_divisions=d) if how == 2 else \
            cl.add_step('bisection', num_divisions=d, max_divisions=mx, initial_num_cases=n)
    if spacing == 'log':
        st.num_cases(n, spacing='log')
    for i in cont:
        st.const(names[i], tg[i])
    s = start_sol(w, m, **pos)
    k0 = w.snapshot(s.const)
    st.reset()
    st.init(s, bvp_like(names))
    # spec state: the scheduled points, position of the case to present next
    pts = {i: [between(w, k0[i], tg[i], j, n - 1, spacing) for j in range(n)] for i in cont}
    p, run, steps = 0, 0, 0
    prob_fail = 0 if w.symbolic else w.rng.choice([0.0, 0.2, 0.4, 0.6, 0.85, 1.0])
    hist = []
    while True:
        total = len(pts[cont[0]])
        if p >= total:
            w.ensure_raises('ends after the last scheduled point', st.next, StopIteration)
            w.ensure_eq('announced number of cases', st.num_cases(), total)
            break
        g = st.next()
        w.ensure_eq('announced number of cases', st.num_cases(), total)
        for i in range(m):
            if i in cont:
                w.ensure_eq('scheduled value of a continued constant', g.const[i], pts[i][p])
            else:
                w.ensure_eq('other constants keep their value', g.const[i], k0[i])
        steps += 1
        if w.symbolic:
            fail = w.choice('fail%d' % steps, [False, True])
        else:
            fail = w.rng.random() < prob_fail
        hist.append(int(fail))
        w.inputs['history'] = hist
        g.converged = not fail
        st.add_gamma(g)
        if not fail:
            p, run = p + 1, 0
            if p == len(pts[cont[0]]):
                for i in cont:
                    w.ensure_eq('ends exactly at the target', g.const[i], tg[i])
        elif p == 0:
            w.ensure_raises('failure of the first case stops with an error', st.next, RuntimeError)
            break
        else:
            run += 1
            if run > mx + 1:
                w.ensure_raises('stops after the configured number of divisions', st.next, RuntimeError)
                break
            if run == mx + 1:
                # the implementation may stop here or after one more division
                st2 = copy.deepcopy(st)
                try:
                    st2.next()
                except RuntimeError:
                    break
            for i in cont:
                a, b = pts[i][p - 1], pts[i][p]
                pts[i][p:p] = [between(w, a, b, j, d, spacing) for j in range(1, d)]
        if steps >= limit:
            break
    # the same step object run again, from another start: the schedule asked for, without the refinements of this run
    s2 = start_sol(w, m, tag='again', **pos)
    k2 = w.snapshot(s2.const)
    st.reset()
    st.init(s2, bvp_like(names))
    w.ensure_eq('run again: the number of cases asked for', st.num_cases(), n)
    if w.symbolic:
        return
    for j in range(n):
        g = st.next()
        for i in cont:
            w.ensure_eq('run again: the values asked for', g.const[i], between(w, k2[i], tg[i], j, n - 1, spacing))
        g.converged = True
        st.add_gamma(g)
    w.ensure_raises('run again: ends after the last scheduled point', st.next, StopIteration)


@contract('C06', 'sym', budget=60, bound='',
          funcs=['BisectionStrategy.next', 'ContinuationStrategy.next'])
def refinement_step_of_any_schedule(w):
    """inductive step: any schedule length, any position, any number of divisions, 1-2 continued constants"""
    S = w.get(CO, 'BisectionStrategy')
    spacing = w.choice('spacing', ['linear', 'log'])
    m = 2
    names = NAMES[:m]
    cont = w.choice('cont', [[0], [1], [0, 1]])
    L = w.dim('L', 2, 4)
    d = w.dim('d', 2, 4)
    mx = w.dim('mx', 1, 5)
    st = S(initial_num_cases=L, max_divisions=mx, num_divisions=d)
    st.num_cases(L, spacing=spacing)
    for i in cont:
        st.const(names[i], w.real('tg%d' % i))
    s = new_sol(w)
    s.t, s.y, s.const = w.arr('t', 2), w.arr('y', 2, 1), w.arr('k', m)
    if spacing == 'log':
        for i in cont:
            w.assume(s.const[i] > 0)
    k0 = w.snapshot(s.const)
    st.reset()
    st.init(s, bvp_like(names))
    w.attr(st, 'ctr'), w.attr(st, 'division_ctr')
    # arbitrary refined schedule
    old = {}
    for i in cont:
        w.attr(st.vars[names[i]], 'steps')
        st.vars[names[i]].steps = w.arr('steps%d' % i, L)
        old[i] = w.snapshot(st.vars[names[i]].steps)
    p = w.int_in('p', 1, L - 1)          # the failed case, 0-based
    st.ctr = p + 1
    dc = w.int_in('dc', 0, mx)
    st.division_ctr = dc
    gl, gf = copy.deepcopy(s), copy.deepcopy(s)
    gl.converged = True
    gf.converged = False
    for i in cont:
        gl.const[i], gf.const[i] = old[i][p - 1], old[i][p]
        if spacing == 'log':
            w.assume(old[i][p - 1] > 0)
            w.assume(old[i][p] > 0)
    st.add_gamma(gl)
    st.add_gamma(gf)
    g = st.next()
    w.ensure_eq('counter', st.ctr, p + 1)
    w.ensure_eq('announced cases grow by the inserted points', st.num_cases(), L + d - 1)
    w.ensure_eq('one more division counted', st.division_ctr, dc + 1)
    for i in range(m):
        if i not in cont:
            w.ensure_eq('other constants keep their value', g.const[i], k0[i])
            continue
        new = st.vars[names[i]].steps
        a, b = old[i][p - 1], old[i][p]
        w.ensure_eq('schedule length', new.shape[0], L + d - 1)
        w.ensure_eq('guess is the first inserted point', g.const[i], new[p])
        q = w.int_in('q%d' % i, 0, L + d - 2)
        if q < p:
            w.ensure_eq('earlier points stay', new[q], old[i][q])
        elif q >= p + d - 1:
            w.ensure_eq('failed and later points stay scheduled', new[q], old[i][q - (d - 1)])
        else:
            j = q - p + 1
            if spacing == 'linear':
                w.ensure_eq('equal divisions of the interval', new[q] * d, a * d + (b - a) * j)
            else:
                w.ensure_eq('equal divisions in the logarithm', log10(new[q]) * d,
                            log10(a) * d + (log10(b) - log10(a)) * j)
    st.reset()
    st.init(s, bvp_like(names))
    w.ensure_eq('run again: the number of cases asked for', st.num_cases(), L)
    for i in cont:
        w.ensure_eq('run again: schedule length', st.vars[names[i]].steps.shape[0], L)


@contract('C06', 'sym', budget=40, bound='(sym: any schedule, any position)',
          funcs=['BisectionStrategy.next'])
def gives_up_after_the_configured_divisions(w):
    S = w.get(CO, 'BisectionStrategy')
    L = w.dim('L', 2, 3)
    mx = w.dim('mx', 1, 2)
    st = S(initial_num_cases=L, max_divisions=mx, num_divisions=2)
    st.num_cases(L)
    st.const('alpha', w.real('tg'))
    s = new_sol(w)
    s.t, s.y, s.const = w.arr('t', 2), w.arr('y', 2, 1), w.arr('k', 2)
    st.reset()
    st.init(s, bvp_like(NAMES[:2]))
    w.attr(st, 'ctr'), w.attr(st, 'division_ctr')
    g = copy.deepcopy(s)
    g.converged = False
    what = w.choice('what', ['first', 'exceeded', 'reset'])
    if what == 'first':
        st.next()
        st.add_gamma(g)
        w.ensure_raises('failure of the first case stops with an error', st.next, RuntimeError)
        return
    st.ctr = w.int_in('c', 2, L)
    st.division_ctr = w.int_in('dc', mx + 1, mx + 5)
    if what == 'exceeded':
        st.add_gamma(g)
        w.ensure_raises('stops with an error', st.next, RuntimeError)
    else:
        g.converged = True
        st.add_gamma(g)
        if st.ctr < L:
            st.next()
            w.ensure_eq('a converged case restarts the count of divisions', st.division_ctr, 0)
