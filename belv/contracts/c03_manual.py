"""C03: the path of constants announced by a manual continuation step."""
import copy
from types import SimpleNamespace as NS
import numpy as np
from belv.world import contract
from belv.contracts.common import new_sol, CO

NAMES = ['alpha', 'b', 'mass_0', 'x_f', 'zz']


def bvp_like(names):
    return NS(constants=[NS(name=n) for n in names])


def start_sol(w, m, tag='', lo=None, hi=None):
    s = new_sol(w)
    s.t = w.times('t' + tag, 2)
    s.y = w.arr('y' + tag, 2, 1)
    s.const = w.arr('k' + tag, m, lo=lo, hi=hi)
    return s


def lin(a, b, i, n):
    return a + (b - a) * i / (n - 1)


def log10(x):
    return np.log10(x)


def setup(w, lo=None, hi=None, few=False):
    m = w.dim('m', 1, 5) if w.mode == 'conc' else w.choice('m', [1, 2] if few else [1, 2, 3])
    names = NAMES[:m]
    sub = w.choice('vars', list(range(1, 2 ** m)))
    cont = [i for i in range(m) if sub >> i & 1]
    if w.mode == 'conc' and w.rng.random() < 0.5:
        cont = cont[::-1]
    tg = w.arr('target', m, lo=lo, hi=hi)
    return m, names, cont, tg


@contract('C03', 'bsym conc', trials=150, budget=60, bound='constants<=2, cases<=3 (conc: 5, 9)',
          funcs=['ManualStrategy.init', 'ManualStrategy.set', 'ManualStrategy.num_cases', 'ContinuationStrategy.next',
                 'ContinuationStrategy.init', 'ContinuationStrategy.add_gamma', 'ContinuationList.add_step'])
def manual_step_visits_the_announced_path(w):
    CL = w.get(CO, 'ContinuationList')
    spacing = w.choice('spacing', ['linear', 'log'])
    pos = dict(lo=0.01, hi=None) if spacing == 'log' else {}
    m, names, cont, tg = setup(w, few=True, **pos)
    n = w.dim('n', 2, 3) if w.mode != 'conc' else w.rng.choice([w.rng.randint(2, 9)] * 9 + [w.rng.randint(10, 130)])
    w.inputs['n'] = n
    bvp = bvp_like(names)
    cl = CL()
    st = cl.add_step('manual')
    w.ensure('add_step records the step', len(cl) == 1 and cl[0] is st)
    if spacing == 'log' or w.choice('explicit', [True, False]):
        st.num_cases(n, spacing=spacing)
    else:
        st.num_cases(n)
    for i in cont:
        st.const(names[i], tg[i]) if i % 2 else st.constant(names[i], tg[i])
    runs = 2 if w.mode == 'conc' else 1
    for run in range(runs):
        s = start_sol(w, m, str(run), **pos)
        if w.mode == 'conc':
            # a constant may already be at its target, or still where the run before started
            for i in cont:
                how = w.rng.choice(['new', 'new', 'target', 'again'])
                if how == 'target':
                    s.const[i] = tg[i]
                elif how == 'again' and run:
                    s.const[i] = k0[i]
            if w.rng.random() < 0.2:
                # constants given as whole numbers
                s.const = np.array([w.rng.randint(1, 9) for _ in range(m)])
        k0 = w.snapshot(s.const)
        st.reset()
        st.init(s, bvp)
        w.ensure_eq('announced number of cases', st.num_cases(), n)
        w.ensure_eq('len is the number of cases', len(st), n)
        for c in range(n):
            g = st.next()
            for i in range(m):
                v = g.const[i]
                if i not in cont:
                    w.ensure_eq('constant not continued keeps its value', v, k0[i])
                elif spacing == 'linear':
                    w.ensure_eq('equally spaced value', v, lin(k0[i], tg[i], c, n))
                elif w.symbolic:
                    w.ensure_eq('log-spaced value', v, 10.0 ** lin(log10(k0[i]), log10(tg[i]), c, n))
                    w.ensure_eq('log-spaced value (log)', log10(v), lin(log10(k0[i]), log10(tg[i]), c, n))
                else:
                    w.ensure_eq('log-spaced value', v, k0[i] * (tg[i] / k0[i]) ** (c / (n - 1)))
            if c == n - 1:
                for i in cont:
                    w.ensure_eq('last case is the target', g.const[i], tg[i])
            g.converged = True
            st.add_gamma(g)
        w.ensure_raises('stops after the last case', st.next, StopIteration)
        w.ensure_eq('start solution untouched', s.const, k0)


@contract('C03', 'bsym conc', trials=40, budget=30, bound='constants<=3',
          funcs=['ManualStrategy.init'])
def unknown_constant_is_refused(w):
    m, names, cont, tg = setup(w)
    kind = w.choice('strategy', ['ManualStrategy', 'BisectionStrategy'])
    S = w.get(CO, kind)
    st = S()
    st.num_cases(3)
    where = w.choice('where', ['first', 'last', 'only'])
    bad = w.choice('bad', ['nosuch', 'Alpha', 'alph', 'alphab', ''])
    if where == 'first':
        st.const(bad, 1.0)
    if where != 'only':
        for i in cont:
            st.const(names[i], tg[i])
    if where != 'first':
        st.const(bad, 1.0)
    s = start_sol(w, m)
    w.ensure_raises('naming a constant the problem does not have is refused', lambda: st.init(s, bvp_like(names)),
                    (ValueError, KeyError))


@contract('C03', 'sym', budget=60, bound='constants<=3 (sym: any number of cases, any position of the counter)',
          funcs=['ManualStrategy.init', 'ContinuationStrategy.next'])
def every_case_of_any_schedule(w):
    """inductive step: from counter c the next guess is the c-th announced value, counter c+1; at n it stops"""
    S = w.get(CO, 'ManualStrategy')
    spacing = w.choice('spacing', ['linear', 'log'])
    pos = dict(lo=0.01) if spacing == 'log' and w.mode != 'sym' else {}
    m, names, cont, tg = setup(w, **pos)
    n = w.dim('n', 2, 4)
    st = S()
    st.num_cases(n, spacing=spacing)
    for i in cont:
        st.const(names[i], tg[i])
    s = new_sol(w)
    s.t, s.y = w.arr('t', 2), w.arr('y', 2, 1)
    s.const = w.arr('k', m, **pos)
    if w.mode == 'sym' and spacing == 'log':
        for i in range(m):
            w.assume(s.const[i] > 0)
            w.assume(tg[i] > 0)
    k0 = w.snapshot(s.const)
    st.reset()
    st.init(s, bvp_like(names))
    w.attr(st, 'ctr')
    w.ensure_eq('base: counter starts at zero', st.ctr, 0)
    w.ensure_eq('announced number of cases', st.num_cases(), n)
    # arbitrary later state: c cases done, last one converged with arbitrary continued constants
    c = w.int_in('c', 0, n)
    st.ctr = c
    g1 = copy.deepcopy(s)
    g1.converged = True
    k1 = w.arr('k1', m)
    for i in range(m):
        if i in cont:
            g1.const[i] = k1[i]
    if w.choice('later', [False, True]):
        st.add_gamma(g1)
    if c == n:
        w.ensure_raises('stops after the last case', st.next, StopIteration)
        return
    g = st.next()
    w.ensure_eq('counter advances by one', st.ctr, c + 1)
    w.ensure_eq('number of cases unchanged', st.num_cases(), n)
    for i in range(m):
        v = g.const[i]
        if i not in cont:
            w.ensure_eq('constant not continued keeps its value', v, k0[i])
        elif spacing == 'linear':
            w.ensure_eq('equally spaced value', v * (n - 1), k0[i] * (n - 1) + (tg[i] - k0[i]) * c)
        else:
            w.ensure_eq('log-spaced value', log10(v) * (n - 1),
                        log10(k0[i]) * (n - 1) + (log10(tg[i]) - log10(k0[i])) * c)
