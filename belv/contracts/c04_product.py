"""C04: product-space and sparse-product schedules."""
import copy, itertools
import numpy as np
from belv.world import contract
from belv.contracts.common import CO
from belv.contracts.c03_manual import bvp_like, start_sol, NAMES, lin


def sample(z):
    """value of an affine symbolic expression under a fixed generic assignment (only used to find the match to prove)"""
    import z3
    from belv.terms import zr, z3_to_float
    from belv import terms as T
    e = zr(z)
    subs = []
    for v in {str(x): x for x in T._walk([e]) if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED}.values():
        h = sum((i + 3) * ord(c) for i, c in enumerate(str(v)))
        subs.append((v, z3.RealVal(str(1 + (h * h) % 9973) + '/7')))
    return z3_to_float(z3.simplify(z3.substitute(e, *subs)))


def num(w, v):
    return sample(v) if w.symbolic else float(v)


def match(w, name, visited, expected):
    """visited and expected are the same multiset of points (values proved equal pairwise)"""
    w.ensure(name + ': count', len(visited) == len(expected), '%d vs %d' % (len(visited), len(expected)))
    left = [(tuple(num(w, v) for v in e), e) for e in expected]
    for p in visited:
        pn = tuple(num(w, v) for v in p)
        best = None
        for j, (en, e) in enumerate(left):
            d = max(abs(a - b) / (1 + abs(a)) for a, b in zip(pn, en))
            if d < 1e-7 and (best is None or d < best[0]):
                best = (d, j)
        if best is None:
            w.ensure(name + ': every visited point is due and visited once', False, 'point %r' % (pn,))
            return
        _, e = left.pop(best[1])
        w.ensure_eq(name + ': visited point', list(p), list(e))


def run_all(w, st, s, names, m, cont, k0):
    out = []
    bvp = bvp_like(names)
    st.reset()
    st.init(s, bvp)
    n = len(st)
    for c in range(n + 3):
        try:
            g = st.next()
        except StopIteration:
            break
        for i in range(m):
            if i not in cont:
                w.ensure_eq('constant not continued keeps its value', g.const[i], k0[i])
        out.append(tuple(g.const[i] for i in cont))
        g.converged = True
        st.add_gamma(g)
    w.ensure_eq('announced number of cases', len(out), n)
    return out


@contract('C04', 'bsym conc', trials=60, budget=60, bound='constants<=2, samples<=3 (conc: 3, 4)',
          funcs=['ProductStrategy.init', 'ProductStrategy.next', 'ProductStrategy.num_subdivisions', 'ProductStrategy.num_cases'])
def product_step_visits_the_grid_once(w):
    S = w.get(CO, 'ProductStrategy')
    m = w.choice('m', [1, 2, 3]) if w.mode == 'conc' else w.choice('m', [1, 2])
    nv = w.choice('nv', list(range(1, m + 1)))
    cont = list(range(m))[m - nv:]
    sub = w.choice('sub', [2, 3, 4] if w.mode == 'conc' else [2, 3])
    if sub ** nv > (70 if w.mode == 'conc' else 4):
        return
    names = NAMES[:m]
    tg = w.arr('target', m)
    st = S()
    st.num_subdivisions(sub)
    for i in cont:
        st.const(names[i], tg[i])
    for run in range(2 if w.mode == 'conc' else 1):
        s = start_sol(w, m, str(run))
        k0 = w.snapshot(s.const)
        vis = run_all(w, st, s, names, m, cont, k0)
        exp = list(itertools.product(*[[lin(k0[i], tg[i], j, sub) for j in range(sub)] for i in cont]))
        match(w, 'product grid', vis, exp)
        if vis:
            w.ensure_eq('begins at the current values', list(vis[0]), [k0[i] for i in cont])
            w.ensure_eq('ends at the targets', list(vis[-1]), [tg[i] for i in cont])


@contract('C04', 'bsym', budget=60, bound='constants<=3, samples<=4, grid<=27: schedule built by init, values symbolic',
          funcs=['ProductStrategy.init', 'SparseProductStrategy.init'])
def schedules_for_arbitrary_values(w):
    kind = w.choice('kind', ['ProductStrategy', 'SparseProductStrategy'])
    S = w.get(CO, kind)
    m = w.choice('m', [1, 2, 3])
    names = NAMES[:m]
    tg = w.arr('target', m)
    st = S()
    if kind == 'ProductStrategy':
        sub = w.choice('sub', [2, 3, 4])
        if sub ** m > 27:
            return
        st.num_subdivisions(sub)
    else:
        maj = tuple(w.choice('maj%d' % i, [2, 3]) for i in range(m))
        mino = tuple(w.choice('min%d' % i, [0, 2]) for i in range(m))
        st.num_subdivisions((maj, mino))
    for n in names:
        st.const(n, tg[names.index(n)])
    for run in range(2):
        s = start_sol(w, m, str(run))
        k0 = w.snapshot(s.const)
        st.reset()
        st.init(s, bvp_like(names))
        w.attr(st, 'vars')
        cols = [w.attr(st.vars[n], 'steps') for n in names]
        w.ensure('all constants have a value per case', all(len(c) == len(st) for c in cols))
        vis = [tuple(c[i] for c in cols) for i in range(len(st))]
        if kind == 'ProductStrategy':
            exp = list(itertools.product(*[[lin(k0[i], tg[i], j, sub) for j in range(sub)] for i in range(m)]))
        else:
            exp = sparse_points([k0[i] for i in range(m)], [tg[i] for i in range(m)], maj, mino)
        match(w, 'schedule', vis, exp)
        w.ensure_eq('begins at the current values', list(vis[0]), [k0[i] for i in range(m)])
        if kind == 'ProductStrategy':
            w.ensure_eq('ends at the targets', list(vis[-1]), [tg[i] for i in range(m)])


def sparse_points(lo, hi, maj, mino):
    """the points of the statement: every major grid point, plus the intermediate points along the extended axis"""
    pts = [tuple(lo)]
    majors = [tuple(lo)]
    for a in range(len(lo)):
        new = []
        for base in majors:
            line = [lin(lo[a], hi[a], j, maj[a]) if maj[a] > 1 else lo[a] for j in range(maj[a])]
            for x0, x1 in zip(line[:-1], line[1:]):
                for q in range(1, mino[a] + 1):
                    pts.append(base[:a] + (x0 + (x1 - x0) * q / (mino[a] + 1),) + base[a + 1:])
                pts.append(base[:a] + (x1,) + base[a + 1:])
                new.append(base[:a] + (x1,) + base[a + 1:])
        majors += new
    return pts


@contract('C04', 'conc', trials=60, budget=60,
          funcs=['SparseProductStrategy.init', 'SparseProductStrategy.next', 'SparseProductStrategy.num_subdivisions'])
def sparse_step_visits_the_announced_path(w):
    S = w.get(CO, 'SparseProductStrategy')
    m = w.choice('m', [1, 2, 3])
    nv = w.choice('nv', list(range(1, m + 1)))
    cont = list(range(m))[m - nv:]
    names = NAMES[:m]
    tg = w.arr('target', m)
    maj = tuple(w.choice('maj%d' % i, [2, 3, 4]) for i in range(nv))
    mino = tuple(w.choice('min%d' % i, [0, 1, 3]) for i in range(nv))
    st = S()
    st.num_subdivisions((maj, mino))
    for i in cont:
        st.const(names[i], tg[i])
    for run in range(2):
        s = start_sol(w, m, str(run))
        k0 = w.snapshot(s.const)
        vis = run_all(w, st, s, names, m, cont, k0)
        exp = sparse_points([k0[i] for i in cont], [tg[i] for i in cont], maj, mino)
        match(w, 'sparse path', vis, exp)
        keys = [tuple(np.round(v, 9) for v in p) for p in vis]
        w.ensure('duplicate-free', len(set(keys)) == len(keys))
        if vis:
            w.ensure_eq('begins at the current values', list(vis[0]), [k0[i] for i in cont])
