"""C12: differential geometry helpers; geometric and traditional derivations agree."""
import copy
import sympy
from belv import sx
from belv.world import contract
from belv.contracts.common import generic_ocp, MF, SP, Gen, symmetric_ocp, SYMMETRIC_KINDS

DG = 'beluga.symbolic.differential_geometry.differential_geometry'


def basis(n):
    return [sympy.Symbol('x%d' % i) for i in range(n)], [sympy.Symbol('l%d' % i) for i in range(n)]


@contract('C12', 'bsym conc', trials=12, budget=40, bound='dimension <=4 pairs, Hamiltonian arbitrary',
          funcs=['make_standard_symplectic_form', 'make_hamiltonian_vector_field', 'is_symplectic'])
def standard_form_gives_canonical_equations(w):
    form, field, issym = w.get(DG, 'make_standard_symplectic_form', 'make_hamiltonian_vector_field', 'is_symplectic')
    n = w.choice('n', [1, 2, 3, 4])
    xs, ls = basis(n)
    om = form(xs, ls)
    w.ensure('square of twice the dimension', tuple(om.shape) == (2 * n, 2 * n))
    for i in range(2 * n):
        for j in range(2 * n):
            want = 1 if j - i == n else -1 if i - j == n else 0
            w.ensure('antisymmetric, pairs each state with its own costate', om[i, j] == want)
    w.ensure('reported symplectic', issym(om) is True or issym(om) == True)
    H = sympy.Function('H')(*xs, *ls)
    if not w.symbolic and w.rng.random() < 0.6:
        H = sum(w.rng.randint(-3, 3) * a * b + sympy.sin(a) for a, b in zip(xs + ls, (ls + xs)[1:] + [xs[0]])) + xs[0] ** 2
    X = field(H, om, xs + ls)
    w.ensure_eq('one rate per coordinate', len(X), 2 * n)
    for i in range(n):
        w.expr_eq('state rate is dH/dcostate', X[i], H.diff(ls[i]))
        w.expr_eq('costate rate is minus dH/dstate', X[n + i], -H.diff(xs[i]))
    w.ensure_raises('unequal numbers refused', lambda: form(xs, ls + [sympy.Symbol('extra')]))
    odd = sympy.MutableDenseNDimArray(sympy.zeros(3, 3))
    w.ensure_raises('odd dimension refused', lambda: field(H, odd, xs))
    w.ensure_raises('non-square refused', lambda: field(H, sympy.MutableDenseNDimArray(sympy.zeros(2, 4)), xs))


@contract('C12', 'bsym conc', trials=15, budget=40, bound='dimension <=4, functions arbitrary', funcs=['exterior_derivative'])
def exterior_derivative_contract(w):
    d = w.get(DG, 'exterior_derivative')
    n = w.choice('n', [1, 2, 3, 4])
    xs = [sympy.Symbol('z%d' % i) for i in range(n)]
    f = sympy.Function('f')(*xs)
    df = d(f, xs)
    w.ensure('a function gives one component per coordinate', tuple(df.shape) == (n,))
    for i in range(n):
        w.expr_eq('gradient', df[i], f.diff(xs[i]))
    al = [sympy.Function('a%d' % i)(*xs) for i in range(n)]
    if not w.symbolic:
        al = [w.rng.randint(1, 4) * xs[(i + 1) % n] ** 2 * xs[i] + sympy.sin(xs[0]) for i in range(n)]
    kind = w.choice('kind', ['nd', 'array'])
    A = sympy.MutableDenseNDimArray(al) if kind == 'nd' else sympy.Array(al)
    da = d(A, xs)
    w.ensure('a one-form gives a square array', tuple(da.shape) == (n, n))
    for i in range(n):
        for j in range(n):
            w.expr_eq('dA_ij = d_i A_j - d_j A_i', da[i, j], al[j].diff(xs[i]) - al[i].diff(xs[j]))
            w.expr_eq('antisymmetric', da[i, j] + da[j, i], 0)
    dd = d(df, xs)
    for i in range(n):
        for j in range(n):
            w.expr_eq('exact forms are closed', dd[i, j], 0)


@contract('C12', 'bsym conc', trials=40, budget=30, bound='shape <=4x4, entries arbitrary', funcs=['is_symplectic'])
def only_antisymmetric_even_forms_are_symplectic(w):
    issym = w.get(DG, 'is_symplectic')
    n = w.choice('n', [2, 4])
    S = lambda i, j: sympy.Symbol('o%d%d' % (i, j))
    A = sympy.MutableDenseNDimArray.zeros(n, n)
    for i in range(n):
        for j in range(i):
            v = S(i, j) if w.symbolic else w.rng.choice([sympy.Integer(w.rng.randint(-3, 3)), S(i, j)])
            A[i, j] = v
            A[j, i] = -v
    w.ensure('antisymmetric even form accepted', bool(issym(A)) is True)
    i = w.choice('i', range(n))
    j = w.choice('j', range(n))
    B = sympy.MutableDenseNDimArray(A)
    B[i, j] = B[i, j] + (sympy.Symbol('pert') if w.symbolic else w.rng.choice([1, sympy.Symbol('pert')]))
    w.ensure('a broken entry is rejected', bool(issym(B)) is False)
    w.ensure('no form is rejected', bool(issym(None)) is False)
    w.ensure('odd dimension rejected', bool(issym(sympy.MutableDenseNDimArray.zeros(3, 3))) is False)
    w.ensure('not square rejected', bool(issym(sympy.MutableDenseNDimArray.zeros(2, 4))) is False)
    w.ensure('a vector is rejected', bool(issym(sympy.MutableDenseNDimArray([0, 0]))) is False)


@contract('C12', 'bsym conc', trials=10, budget=60, bound='states <=2, controls <=2; functions arbitrary',
          funcs=['Dualize.transformation', 'DifferentialControlLaw.transformation', 'make_hamiltonian_vector_field'])
def both_methods_give_the_same_dynamics(w):
    Dualize, Mom, Diff = w.get(MF, 'Dualize', 'MomentumShift', 'DifferentialControlLaw')
    if w.symbolic:
        nx, nu, npar = w.choice('dims', [(1, 1, 0), (2, 1, 0), (3, 1, 0), (1, 2, 0), (2, 2, 0), (1, 1, 1), (2, 1, 1)])
    else:
        nx, nu, npar = w.rng.randint(1, 3), w.rng.randint(1, 2), w.rng.randint(0, 1)
    p = generic_ocp(w, nx, nu, 1, 1, npar, quadratic=nu > 1)
    p = Mom()(p)
    res = {}
    q = copy.deepcopy(p)
    n = len(p.states)
    for m in ('traditional', 'diffyg'):
        r = Dualize(method=m)(copy.deepcopy(p))
        H = r.hamiltonian.expr
        a = Diff(method=m)(copy.deepcopy(r))
        res[m] = (r, a)
    (rt, at), (rd, ad) = res['traditional'], res['diffyg']
    for x, y in zip(rt.costates + rt.coparameters, rd.costates + rd.coparameters):
        w.expr_eq('same costate rates', y.eom, x.eom)
    w.ensure('same names', [s.name for s in rt.costates] == [s.name for s in rd.costates])
    dt, dd = {s.name: s for s in at.states + at.costates}, {s.name: s for s in ad.states + ad.costates}
    for k, s in dt.items():
        w.ensure('%s present' % 'every state', k in dd)
        want = s.eom
        if k == '_lam_t':
            # may differ by a multiple of dH/du, zero on solutions
            alt = want - sum((H.diff(u.sym) * dt[u.name].eom for u in p.controls), sympy.Integer(0))
            if abs(sx.fingerprint(dd[k].eom) - sx.fingerprint(alt)) < 1e-7 * (1 + abs(sx.fingerprint(alt))):
                want = alt
        w.expr_eq('same rates for states, costates and controls', dd[k].eom, want)


@contract('C12', 'bsym conc', trials=10, budget=60, bound='states <=3, one control, 1..2 translation symmetries; functions arbitrary',
          funcs=['MishchenkoFomenko.transformation', 'noether', 'NormalizeTime.transformation', 'MomentumShift.transformation'])
def reduction_keeps_the_dynamics(w):
    Dualize, Mom, Diff, Norm, Red, pre = w.get(MF, 'Dualize', 'MomentumShift', 'DifferentialControlLaw', 'NormalizeTime',
                                               'MishchenkoFomenko', 'make_preprocessor')
    if w.symbolic or w.choice('own', [True, False]):
        nx, sy = w.choice('shape', [(2, [0]), (2, [1]), (3, [1]), (3, [0, 2])])
        p = w.get(SP, 'Problem')(name='sym')
        p.independent('t', 's')
        g = Gen(w, p)
        free = ['x%d' % i for i in range(nx) if i not in sy] + ['t', 'k0']
        for i in range(nx):
            p.state('x%d' % i, '%s + %s*u' % (g.f('fa%d' % i, free), g.f('fb%d' % i, free)), 'm')
        p.control('u', '1').constant('k0', 1.5, '1')
        p.set_cost(path='%s + (2 + %s**2)*u**2' % (g.f('L', free), g.f('R', free)), initial='0', terminal='0', units='s')
        for i in sy:
            p.symmetry(['1' if j == i else '0' for j in range(nx)], 'm')
        allx = ['x%d' % i for i in range(nx)] + ['t']
        p.initial_constraint(g.f('c0', allx), 'm').terminal_constraint(g.f('c1', allx), 'm').initial_constraint('t', 's')
        names = ['x%d' % i for i in sy]
    else:
        p, names = symmetric_ocp(w, w.choice('kind', SYMMETRIC_KINDS))
    p = Mom()(pre()(p))
    p = Norm()(Diff(method='diffyg')(Dualize(method='diffyg')(p)))
    un = copy.deepcopy(p)
    r = p
    for _ in names:
        r = Red(1)(r)
    w.ensure('every symmetry is used', len(r.quads) == len(un.quads) + len(names))
    gone = [s.name for s in un.states if s.name not in [z.name for z in r.states]]
    w.ensure('the symmetric states are replaced', sorted(gone) == sorted(names), str(gone))
    w.ensure('their costates become parameters', len(r.costates) == len(un.costates) - len(names)
             and len(r.parameters) == len(un.parameters) + len(names))
    new = [q.name for q in r.quads] + [q.name for q in r.parameters] + [q.name for q in r.states + r.costates]
    w.ensure('every variable of the reduced problem has its own name', len(set(new)) == len(new), str(new))
    # which quadrature / parameter stands for which state: in the order of the symmetries
    old = {s.name: s for s in un.states + un.costates}
    sub = {}
    for i, n in enumerate(names):
        sub[old[n].sym] = r.quads[len(un.quads) + i].sym
        sub[old['_lam_' + n].sym] = r.parameters[len(un.parameters) + i].sym
    for s in r.states + r.costates:
        w.expr_eq('rates of the remaining variables', s.eom, old[s.name].eom.subs(sub))
    for i, n in enumerate(names):
        w.expr_eq('rate of the quadrature', r.quads[len(un.quads) + i].eom.subs(sub), old[n].eom.subs(sub))
    for at in ('initial', 'terminal'):
        w.ensure('same number of conditions', len(r.constraints[at]) == len(un.constraints[at]))
        for a, b in zip(r.constraints[at], un.constraints[at]):
            w.expr_eq('boundary conditions', a.expr, b.expr.subs(sub))


@contract('C12', 'bsym conc', trials=16, budget=50, bound='states <=3, one control, parameters <=1, <=2 symmetries; functions arbitrary',
          funcs=['noether', 'Dualize.transformation', 'MomentumShift.transformation', 'Problem.symmetry'])
def derived_constants_of_motion_are_conserved(w):
    """every symmetry the user may rely on gives a quantity that does not change along the derived flow"""
    Dualize, Mom, pre = w.get(MF, 'Dualize', 'MomentumShift', 'make_preprocessor')
    kind = w.choice('kind', ['translation', 'rotation', 'none'])
    npar = w.choice('npar', [0, 1])
    tr, tc = w.choice('time in the rates', [True, False]), w.choice('time in the path cost', [True, False])
    p = w.get(SP, 'Problem')(name='com')
    p.independent('t', 's')
    g = Gen(w, p)
    par = ['p0'] * npar
    if kind == 'rotation':
        # radius and control are invariant: x' = a(r) x - b(r) y, y' = b(r) x + a(r) y
        inv = ['r', 'k0', 'u'] + par + (['t'] if tr else [])
        p.quantity('r', 'x0**2 + x1**2')
        a, b = g.f('fa', inv), g.f('fb', inv)
        p.state('x0', '(%s)*x0 - (%s)*x1' % (a, b), 'm').state('x1', '(%s)*x0 + (%s)*x1' % (b, a), 'm')
        path = g.f('L', ['r', 'k0', 'u'] + par + (['t'] if tc else []))
        fields, nx = [['-x1', 'x0']], 2
    else:
        nx = w.choice('nx', [1, 2, 3]) if kind == 'none' else w.choice('nx', [2, 3])
        sy = [] if kind == 'none' else w.choice('sy', [[0], [1]] if nx == 2 else [[0], [2], [2, 0]])
        free = ['x%d' % i for i in range(nx) if i not in sy] + ['k0', 'u'] + par
        for i in range(nx):
            p.state('x%d' % i, g.f('f%d' % i, free + (['t'] if tr else [])), 'm')
        path = g.f('L', free + (['t'] if tc else []))
        fields = [['1' if j == i else '0' for j in range(nx)] for i in sy]
    if tr:
        p.states[-1].eom = '(%s) + u*t' % p.states[-1].eom if kind != 'rotation' else p.states[-1].eom
    if tc:
        path += ' + t*u**2'
    for x in par:
        p.parameter(x, 'kg')
    p.control('u', '1').constant('k0', 1.5, '1')
    p.set_cost(path=path, initial='0', terminal='0', units='J')
    for f in fields:
        p.symmetry(f, '1' if kind == 'rotation' else 'm')
    p.initial_constraint('x0', 'm').terminal_constraint('x0 - 1', 'm')
    p = Mom()(pre()(p))
    out = Dualize(method='diffyg')(p)
    var = out.states + out.costates + out.coparameters
    t = out.states[-1].sym
    lam = {s.name: s.sym for s in out.costates}
    moving = lambda e: sum((sympy.diff(e, s.sym) * s.eom for s in var), sympy.Integer(0))
    for c in out.constants_of_motion:
        w.expr_eq('a derived constant of motion does not change along the flow', moving(c.expr), 0)
    auto = all(s.eom.diff(t) == 0 for s in out.states) and out.cost.path.diff(t) == 0
    w.ensure_eq('the Hamiltonian and one quantity per symmetry', len(out.constants_of_motion), 1 + len(fields) + (1 if auto else 0))
    w.expr_eq('the Hamiltonian first', out.constants_of_motion[0].expr, out.hamiltonian.expr)
    want = [sum((p.sympify(c) if isinstance(c, str) else sympy.sympify(c)) * lam['_lam_x%d' % i] for i, c in enumerate(f)) for f in fields]
    if auto:
        want.append(lam['_lam_t'])
    for c, e in zip(out.constants_of_motion[1:], want):
        sgn = 1 if abs(sx.fingerprint(c.expr) - sx.fingerprint(e)) < 1e-7 * (1 + abs(sx.fingerprint(e))) else -1
        w.expr_eq('the momentum along the symmetry', c.expr, sgn * e)
    un = {s.name: s.units for s in out.costates}
    for c, f in zip(out.constants_of_motion[1:], fields):
        i = [j for j, z in enumerate(f) if z != '0'][0]
        m = sympy.Symbol('m') if kind == 'rotation' else 1
        w.expr_eq('with its units', c.units, un['_lam_x%d' % i] * m)
    if auto:
        w.expr_eq('with its units', out.constants_of_motion[-1].units, un['_lam_t'])
    names = [c.name for c in out.constants_of_motion]
    w.ensure('distinct names', len(set(names)) == len(names))
