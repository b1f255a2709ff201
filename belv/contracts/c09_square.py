"""C09: the derived boundary-value problem is square, closed and free of name clashes."""
import copy
import sympy
from belv.world import contract
from belv.contracts.common import generic_ocp, small_ocp, OCP_KINDS, MF, SP, symmetric_ocp, SYMMETRIC_KINDS

REFS = ('states', 'quads', 'controls', 'parameters', 'constraint_parameters', 'constants')


def exprs(p):
    for s in p.states + p.quads:
        yield 'rate of ' + s.name, s.eom
    for loc in ('initial', 'terminal'):
        for i, c in enumerate(p.constraints[loc]):
            yield '%s condition %d' % (loc, i), c.expr
    yield 'path cost', p.cost.path


def square_and_closed(w, out, tag=''):
    nb = len(out.constraints['initial']) + len(out.constraints['terminal'])
    nun = len(out.states) + len(out.quads) + len(out.parameters) + len(out.constraint_parameters)
    w.ensure_eq('as many boundary conditions as unknowns', nb, nun)
    known = set()
    names = []
    for a in REFS:
        for s in getattr(out, a):
            known.add(s.sym)
            names.append(s.name)
    names.append(out.independent_variable.name)
    w.ensure('names are distinct', len(names) == len(set(names)), str(names))
    w.ensure('nothing left to dualise', not out.costates and not out.coparameters and not out.constraint_adjoints)
    w.ensure('no path constraint left', len(out.constraints['path']) == 0)
    us = {u.sym for u in out.controls}
    w.ensure('controls left only together with a law', (not us) or len(out.control_law) > 0)
    for what, e in exprs(out):
        extra = sympy.sympify(e).free_symbols - known
        w.ensure('%s uses only known symbols' % what.split(' ')[0], not extra, '%s mentions %s' % (what, extra))
    for row in out.control_law:
        w.ensure_eq('one law per control', len(row), len(us))
        for e in row:
            extra = sympy.sympify(e).free_symbols - (known - us)
            w.ensure('control law uses only known symbols', not extra, str(extra))
    for j in ('df_dy', 'df_dp'):
        m = out.func_jac.get(j)
        if m is not None:
            w.ensure('Jacobian uses only known symbols', not (set(m.free_symbols) - known))


def bounded_extra(w, kind):
    """inequality constraints of several kinds on the generic problem"""
    def f(p, g):
        if kind in ('epstrig', 'both'):
            p.constant('eps1', 0.1, '1').constant('lo', -1, '1').constant('hi', 2, '1')
            p.path_constraint('u0', '1', lower='lo', upper='hi', activator='eps1', method='epstrig')
        if kind in ('utm', 'both'):
            p.constant('eps2', 0.1, '1').constant('xm', 3, 'm')
            p.path_constraint('x0', 'm', lower='-xm', upper='xm', activator='eps2', method='utm')
            p.terminal_constraint('x0*k0', 'm', lower='-xm', upper='xm', activator='eps2', method='utm')
        if kind == 'quantities':
            p.quantity('Q1', 'x0*k0 + Q2').quantity('Q2', 'x0**2*k1')
            p.terminal_constraint('Q1 - k0', 'm')
    return f


@contract('C09', 'bsym conc', trials=50, budget=80,
          bound='states <=3, controls <=2, boundary constraints <=2 per end, parameters <=1; dynamics, cost and constraints arbitrary functions',
          funcs=['make_indirect_method', 'Dualize.transformation', 'MomentumShift.transformation', 'DifferentialControlLaw.transformation',
                 'AlgebraicControlLaw.transformation', 'NormalizeTime.transformation', 'SquashToBVP.transformation', 'EpsTrig.transformation',
                 'UTM.transformation', 'ComputeAnalyticalJacobians.transformation'])
def derived_problem_is_square_and_closed(w):
    ind = w.get(MF, 'make_indirect_method')
    if w.symbolic:
        nx, nu, n0, nf, npar = w.choice('dims', [(1, 1, 1, 1, 0), (2, 1, 1, 2, 0), (1, 2, 0, 1, 0), (3, 1, 2, 0, 0), (1, 1, 1, 1, 1), (2, 2, 0, 0, 0), (2, 1, 1, 1, 2)])
    else:
        r = w.rng
        nx, nu, n0, nf, npar = r.randint(1, 4), r.choice([1, 1, 2, 2, 3]), r.randint(0, 3), r.randint(0, 3), r.choice([0, 0, 1, 2])
    method = w.choice('method', ['traditional', 'diffyg'])
    cm = w.choice('control', ['differential', 'algebraic'])
    kind = w.choice('kind', ['plain', 'epstrig', 'utm', 'both', 'quantities'])
    if cm == 'algebraic' and kind in ('epstrig', 'both'):
        kind = 'utm'
    shift = True if (method == 'diffyg' or kind != 'plain') else w.choice('shift', [True, False])
    jac = w.choice('jac', [False, True]) if nx == 1 else False
    if nx > 2 and nu > 1:
        nu = 1
    if nu == 3:
        nx, npar = 1, 0
    p = generic_ocp(w, nx, nu, n0, nf, npar, quadratic=(cm == 'algebraic' or nu > 1), timedep=shift, ctime=shift,
                    extra=None if kind == 'plain' else bounded_extra(w, kind))
    o = copy.deepcopy(p)
    out = ind(copy.deepcopy(p), method=method, control_method=cm, do_momentum_shift=shift, analytical_jacobian=jac)(p)
    square_and_closed(w, out)
    have = [s.name for s in out.states]
    w.ensure('user states come first, in order', have[:nx] == [s.name for s in o.states])
    w.ensure('constants kept', [c.name for c in out.constants] == [c.name for c in o.constants])
    w.ensure('parameters kept, duration last', [c.name for c in out.parameters][:npar] == [c.name for c in o.parameters]
             and len(out.parameters) == npar + 1)


@contract('C09', 'conc', trials=12, budget=80, funcs=['make_indirect_method', 'MishchenkoFomenko.transformation', 'noether'])
def reduced_problem_is_square_and_closed(w):
    """symmetry reduction (geometric method) on problems with translation symmetries"""
    ind, pre = w.get(MF, 'make_indirect_method', 'make_preprocessor')
    p, _ = symmetric_ocp(w, w.choice('kind', SYMMETRIC_KINDS))
    p = pre()(p)
    out = ind(copy.deepcopy(p), method='diffyg', control_method='differential', reduction=True)(p)
    square_and_closed(w, out)
    w.ensure('a reduction took place', len(out.quads) >= 1)


@contract('C09', 'conc', trials=24, budget=80, funcs=['make_indirect_method', 'RASHS.transformation', 'make_preprocessor'])
def example_problems_are_square_and_closed(w):
    ind, pre = w.get(MF, 'make_indirect_method', 'make_preprocessor')
    kind = w.choice('kind', OCP_KINDS + ['switch'])
    cm = w.choice('control', ['differential', 'algebraic'])
    if kind == 'epstrig':
        cm = 'differential'
    method = w.choice('method', ['traditional', 'diffyg'])
    if kind == 'switch':
        P = w.get(SP, 'Problem')
        p = P(name=kind)
        p.independent('t', 's').state('x', 'v', 'm').state('v', 'T*u', 'm/s').control('u', '1')
        p.constant('tol', 0.1, '1').constant('x_f', 1, 'm').constant('T1', 1, '1').constant('T2', 2, '1')
        p.switch('T', ['T1', 'T2'], [['x - x_f'], ['x_f - x']], 'tol')
        p.set_cost(path='u**2', initial='0', terminal='0', units='s')
        p.initial_constraint('x', 'm').initial_constraint('t', 's').terminal_constraint('x - x_f', 'm')
    else:
        p = small_ocp(w, kind)
    p = pre()(p)
    out = ind(copy.deepcopy(p), method=method, control_method=cm, analytical_jacobian=w.choice('jac', [False, True]))(p)
    square_and_closed(w, out)


@contract('C09', 'conc', trials=4, budget=30, funcs=['make_indirect_method'])
def unknown_options_are_refused(w):
    ind, pre = w.get(MF, 'make_indirect_method', 'make_preprocessor')
    p = pre()(small_ocp(w, 'double'))
    w.ensure_raises('unknown control option', lambda: ind(copy.deepcopy(p), control_method='magic')(copy.deepcopy(p)))
    w.ensure_raises('unsupported control option', lambda: ind(copy.deepcopy(p), control_method='numeric')(copy.deepcopy(p)))
    q = pre()(small_ocp(w, 'utm'))
    q.constraints['path'][0].method = 'nonsense'
    w.ensure_raises('unknown constraint method', lambda: ind(q))
