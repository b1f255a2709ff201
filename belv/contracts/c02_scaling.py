"""C02: automatic scaling."""
import copy
import numpy as np
import sympy
from belv.world import contract
from belv.contracts.common import new_sol, SP, MF

FIELDS = ['t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const']


def units_value(f, u):
    """magnitude of a unit (exponents of m, s, kg) under base magnitudes f"""
    r = 1.0
    for b, e in u.items():
        for _ in range(abs(e)):
            r = r * f[b] if e > 0 else r / f[b]
    return r


def ustr(u):
    return '*'.join('%s**%d' % (b, e) for b, e in u.items() if e) or '1'


U = [dict(m=1), dict(m=1, s=-1), dict(kg=1), dict(), dict(m=1, s=-2), dict(kg=1, m=2, s=-2), dict(s=1), dict(m=-1, kg=2)]

# scale sets: base unit -> (expression, function of reference values)
SCALES = [
    dict(m=('x', lambda r: r['x']), s=('x/v', lambda r: r['x'] / r['v']), kg=('k0', lambda r: r['k0'])),
    dict(m=('v*t', lambda r: r['v'] * r['t']), s=('t', lambda r: r['t']), kg=('3', lambda r: 3.0)),
    dict(m=('p0', lambda r: r['p0']), s=('1', lambda r: 1.0), kg=('n0*k0/2', lambda r: r['n0'] * r['k0'] / 2)),
    dict(m=('k0', lambda r: r['k0']), s=('w', lambda r: r['w']), kg=('v*2', lambda r: r['v'] * 2)),
]


def mag(w, col):
    """largest magnitude a history reaches"""
    if w.mode == 'sym':
        from belv.npshim import SHIM
        return SHIM.max(SHIM.fabs(col))
    m = abs(col[0])
    for x in col[1:]:
        a = abs(x)
        if w.symbolic:
            from belv.terms import SR, zr
            import z3
            m = SR(z3.If(zr(a) > zr(m), zr(a), zr(m)))
        else:
            m = max(m, a)
    return m


@contract('C02', 'sym bsym conc', trials=120, budget=80, bound='2 states, 1 quad, 1-2 controls (conc: 0-2), 1+1 parameters, 2 constants, '
          'nodes<=2, 4 scale sets x unit assignments (sym: any number of nodes)',
          funcs=['NumericProblem.compile_scaling', 'compute_scale_factors', 'scale_sol', 'max_mag', 'LocalCompiler.lambdify',
                 'Problem.scale'])
def scaling_divides_by_unit_magnitudes_and_is_undone(w):
    P, (Comp, Symp) = w.get(SP, 'Problem'), w.get(MF, 'CompileProblem', 'Sympify')
    p = P()
    p.independent('t', 's')
    withq = w.choice('quad', [True, False])
    sc = w.choice('scales', [s for i, s in enumerate(SCALES) if withq or i != 3])
    rot = w.choice('units', [0, 3, 5]) if w.symbolic else w.rng.randrange(8)
    pick = (lambda i: U[(i + rot) % len(U)]) if w.symbolic else (lambda i: w.rng.choice(U))
    un = dict(x=pick(0), v=pick(1), w=pick(2), u1=pick(3), u2=pick(4), p0=pick(5), n0=pick(6), k0=pick(7), k1=pick(8))
    p.state('x', 'v', ustr(un['x'])).state('v', 'x', ustr(un['v']))
    if withq:
        p.quad('w', 'x', ustr(un['w']))
    nu = w.choice('controls', [1, 2]) if w.symbolic else w.choice('controls', [0, 1, 2])
    for i in range(nu):
        p.control('u%d' % (i + 1), ustr(un['u%d' % (i + 1)]))
    p.parameter('p0', ustr(un['p0'])).constraint_parameter('n0', ustr(un['n0']))
    p.constant('k0', 1, ustr(un['k0'])).constant('k1', 2, ustr(un['k1']))
    p.path_cost('0', '1')
    p.scale(**{b: e for b, (e, _) in sc.items()})
    p = Symp()(p)
    p = Comp(use_control_arg=True)(p)
    fp = p.functional_problem
    s = new_sol(w)
    N = w.dim('N', 1, 2) if w.symbolic else w.rng.randint(1, 6)
    s.t = w.times('t', N)
    s.y = w.arr('y', N, 2)
    if withq:
        s.q = w.arr('q', N, 1)
    if nu:
        s.u = w.arr('u', N, nu)
    s.dual = w.arr('dual', N, 2)
    s.dynamical_parameters, s.nondynamical_parameters = w.arr('p', 1), w.arr('n', 1)
    s.const = w.arr('k', 2)
    s.converged = w.choice('converged', [True, False])
    s.cost = 4.25
    old = {f: w.snapshot(getattr(s, f)) for f in FIELDS + ['dual']}
    ref = dict(t=mag(w, s.t), x=mag(w, s.y[:, 0]), v=mag(w, s.y[:, 1]), p0=abs(s.dynamical_parameters[0]),
               n0=abs(s.nondynamical_parameters[0]), k0=abs(s.const[0]), k1=abs(s.const[1]))
    if withq:
        ref['w'] = mag(w, s.q[:, 0])
    for r in ('t', 'x', 'v', 'p0', 'n0', 'k0') + (('w',) if withq else ()):
        w.assume(ref[r] > 1e-3)
    base = {b: f(ref) for b, (_, f) in sc.items()}
    fac = fp.compute_scale_factors(s)
    s2 = fp.scale_sol(s, fac)
    s3 = fp.scale_sol(s2, fac, inv=True)
    j = w.int_in('j', 0, N - 1)

    def F(n):
        return units_value(base, un[n] if n != 't' else dict(s=1))
    pairs = [('t', s2.t[j], old['t'][j], F('t')), ('x', s2.y[j, 0], old['y'][j, 0], F('x')),
             ('v', s2.y[j, 1], old['y'][j, 1], F('v')),
             ('p0', s2.dynamical_parameters[0], old['dynamical_parameters'][0], F('p0')),
             ('n0', s2.nondynamical_parameters[0], old['nondynamical_parameters'][0], F('n0')),
             ('k0', s2.const[0], old['const'][0], F('k0')), ('k1', s2.const[1], old['const'][1], F('k1'))]
    pairs += [('u%d' % (i + 1), s2.u[j, i], old['u'][j, i], F('u%d' % (i + 1))) for i in range(nu)]
    if withq:
        pairs.append(('w', s2.q[j, 0], old['q'][j, 0], F('w')))
    for n, got, o, f in pairs:
        w.ensure_eq('scaled %s is value over unit magnitude' % n, got, o / f)
    for f in FIELDS:
        w.ensure_eq('unscaling gives back ' + f, getattr(s3, f), old[f])
    for f in FIELDS + ['dual']:
        w.ensure_eq('solution passed in unchanged: ' + f, getattr(s, f), old[f])
    for x, nm in ((s2, 'scaled'), (s3, 'unscaled')):
        w.ensure_eq(nm + ': costates not touched', x.dual, old['dual'])
        w.ensure(nm + ': convergence flag kept', x.converged is s.converged)
        w.ensure_eq(nm + ': cost kept', x.cost, 4.25)
    # independence of copies
    if not w.symbolic:
        for f in FIELDS:
            a, b = getattr(s2, f), getattr(s, f)
            w.ensure('scaled copy shares no memory: ' + f, not (isinstance(a, np.ndarray) and a.size and np.shares_memory(a, b)))
    s2b = fp.scale_sol(s, fac)
    s2b.y[0, 0] = 77.0
    s2b.const[0] = 77.0
    w.ensure_eq('changing the scaled copy leaves the original', s.y, old['y'])
    w.ensure_eq('changing the scaled copy leaves the original constants', s.const, old['const'])


# -- the equations that are scaled ----------------------------------------------------------------------------------
def consistent_ocp(w):
    """a problem whose equations are dimensionally consistent as declared"""
    P = w.get(SP, 'Problem')
    r = w.rng
    p = P(name='units')
    p.independent('t', 's')
    drag = r.random() < 0.5
    sym = not drag and r.random() < 0.6
    p.constant('g', -9.81, 'm/s**2').constant('xf', 2.0, 'm').constant('vm', 3.0, 'm/s')
    p.state('x', 'v*cos(th)', 'm')
    p.state('y', 'v*sin(th)', 'm')
    acc = 'g*sin(th)'
    if drag:
        p.constant('H', 7.0, 'm').constant('cd', 0.3, '1/m')
        if r.random() < 0.5:
            p.quantity('D', 'cd*v**2*exp(-y/H)')
            acc += ' - D'
        else:
            acc += ' - cd*v**2*exp(-y/H)'
    par = r.random() < 0.4
    if par:
        p.parameter('w', 'm/s**2')
        acc += ' + w*cos(th)/2'
    thr = r.random() < 0.4
    if thr:
        acc += ' + a'
    p.state('v', acc, 'm/s').control('th', '1')
    if thr:
        p.control('a', 'm/s**2')
    if sym:
        for f in [['1', '0', '0'], ['0', '1', '0']][:r.choice([1, 2])]:
            p.symmetry(f, 'm')
    cost = r.choice(['time', 'energy', 'mayer'])
    p.constant('eps', 0.1, {'time': '1', 'energy': 'm**2/s**3', 'mayer': 'm/s'}[cost])
    p.constant('one', 1.0, 'm**2/s**3')
    p.constant('ca', 0.7, {'time': 's**4/m**2', 'energy': 's', 'mayer': 's**3/m'}[cost])
    more = ' + ca*a**2' if thr else ''
    if cost == 'time':
        p.path_cost('1' + more, '1')
    elif cost == 'energy':
        p.path_cost('one*(th**2 + 1) + v**3/xf' + more, 'm**2/s**3')
    else:
        p.set_cost(terminal='-x + xf', path='vm*th**2/7' + more, units='m')
    con = r.choice([None, 'utm', 'epstrig'])
    if con == 'utm':
        p.path_constraint('v', 'm/s', lower='-vm', upper='vm', activator='eps', method='utm')
    elif con == 'epstrig':
        p.path_constraint('th', '1', lower='-2', upper='1', activator='eps', method='epstrig')
    p.initial_constraint('x', 'm').initial_constraint('t', 's').initial_constraint('v - vm', 'm/s')
    p.terminal_constraint('(x - xf)**2 - y**2', 'm**2')
    p.scale(m='xf', s='xf/v')
    return p, sym and con != 'epstrig' and not par, cost == 'time' and con is None and not par and not thr


@contract('C02', 'conc', trials=60, budget=60, bound='random dimensionally consistent problems; random magnitudes of the base units',
          funcs=['make_indirect_method', 'make_direct_method', 'Dualize.transformation', 'noether', 'MishchenkoFomenko.transformation', 'NormalizeTime.transformation',
                 'DifferentialControlLaw.transformation', 'EpsTrig.transformation', 'UTM.transformation', 'MomentumShift.transformation'])
def derived_equations_scale_with_their_units(w):
    """evaluating the derived equations at scaled values gives the scaled rates and residuals: the scaled problem is the
    same problem"""
    pre, ind, dirm = w.get(MF, 'make_preprocessor', 'make_indirect_method', 'make_direct_method')
    p, reducible, solvable = consistent_ocp(w)
    p = pre()(p)
    kind = w.rng.choice(['traditional', 'diffyg', 'direct'] + (['reduction'] * 2 if reducible else []) + (['algebraic'] if solvable else []))
    norm = w.rng.random() < 0.8
    if kind == 'direct':
        b = dirm(p)(p)
    elif kind == 'algebraic':
        b = ind(p, method=w.rng.choice(['traditional', 'diffyg']), control_method='algebraic')(p)
    else:
        b = ind(p, method='traditional' if kind == 'traditional' else 'diffyg', reduction=kind == 'reduction', do_normalize_time=norm)(p)
    M, S = sympy.symbols('m s')
    sc = {M: w.rng.uniform(0.3, 4), S: w.rng.uniform(0.3, 4)}
    mag = lambda u: float(sympy.sympify(u).subs(sc))
    items = b.states + b.costates + b.quads + b.controls + b.parameters + b.constraint_parameters + b.constraint_adjoints + b.constants
    val = {c.sym: w.rng.uniform(0.4, 1.2) for c in items}
    for c in b.constants:
        val[c.sym] = float(c.default_val)
    val[b.independent_variable.sym] = 0.37
    small = {c.sym: val[c.sym] / mag(c.units) for c in items}
    small[b.independent_variable.sym] = 0.37 / mag(b.independent_variable.units)

    def hom(tag, e, u):
        e = sympy.sympify(e)
        if e.free_symbols - set(val):
            w.ensure(tag + ': only known symbols', False, str(e.free_symbols - set(val)))
            return
        x, z = complex(e.subs(val)), complex(e.subs(small)) * mag(u)
        w.ensure(tag, abs(x - z) <= 1e-7 * (1 + abs(x)), '%s: %s %s (%s): %r unscaled, %r scaled' % (kind, tag, str(e)[:120], u, x, z))
    ti = b.independent_variable.units
    for s in b.states + b.costates + b.quads:
        hom('rate of %s' % ('a state' if s in b.states else 'another variable'), s.eom, s.units / ti)
    for at in ('initial', 'terminal'):
        for c in b.constraints[at]:
            hom(at + ' condition', c.expr, c.units)
    if b.cost.units is not None and kind != 'reduction':
        hom('path cost', b.cost.path, b.cost.units / ti)
        hom('terminal cost', b.cost.terminal, b.cost.units)
        hom('initial cost', b.cost.initial, b.cost.units)
    if getattr(b, 'hamiltonian', None) is not None and kind not in ('direct', 'reduction'):
        hom('Hamiltonian', b.hamiltonian.expr, b.hamiltonian.units)
    if kind not in ('direct', 'reduction'):
        for c in b.constants_of_motion:
            hom('constant of motion', c.expr, c.units)
