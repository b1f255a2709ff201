"""C15: quantities and switches."""
import copy
import itertools
import sympy
from belv.world import contract
from belv.contracts.common import generic_ocp, MF, SP, Gen


def exprs(p):
    """every expression of a problem, with a name"""
    out = []
    for grp in ('states', 'costates', 'quads', 'coparameters'):
        for s in getattr(p, grp):
            out.append(('%s %s' % (grp, s.name), s.eom))
    for l in ('initial', 'path', 'terminal'):
        out.append(('%s cost' % l, getattr(p.cost, l)))
        for i, c in enumerate(p.constraints[l]):
            for f in ('expr', 'lower', 'upper', 'activator'):
                if getattr(c, f, None) is not None:
                    out.append(('%s constraint %d %s' % (l, i, f), getattr(c, f)))
    for s in p.units:
        out.append(('scale %s' % s.name, s.expr))
    for s in p.constants_of_motion:
        out.append(('constant of motion %s' % s.name, s.expr))
    for s in p.symmetries:
        for e in list(s.field):
            out.append(('symmetry', e))
    for s in p.switches:
        if s.sym_func is not None:
            out.append(('switch %s' % s.name, s.sym_func))
    return [(n, sympy.sympify(e)) for n, e in out]


@contract('C15', 'bsym conc', trials=60, budget=80, bound='<=4 quantities, every declaration order, references arbitrary; functions arbitrary',
          funcs=['ApplyQuantities.transformation', 'Problem.subs_all', 'Problem.subs_struct', 'ExpressionStruct.subs_self',
                 'ConstraintStruct.subs_self', 'SymmetryStruct.subs_self', 'SwitchStruct.subs_self', 'CostStruct.subs_self', 'DynamicStruct.subs_self'])
def quantities_disappear(w):
    Problem = w.get(SP, 'Problem')
    pre = w.get(MF, 'make_preprocessor')
    shape = w.choice('shape', ['chain', 'diamond', 'independent', 'skip'])
    n = 4
    deps = {'chain': {0: [1], 1: [2], 2: [3], 3: []}, 'diamond': {0: [1, 2], 1: [3], 2: [3], 3: []},
            'independent': {i: [] for i in range(4)}, 'skip': {0: [3, 1], 1: [3], 2: [0], 3: []}}[shape]
    order = w.choice('order', list(itertools.permutations(range(n))) if not w.symbolic else list(itertools.permutations(range(n)))[::2] + [(3, 2, 1, 0)])
    P = Problem(name='q')
    g = Gen(w, P)
    P.independent('t', 's')
    P.constant('k0', 1.0, '1').constant('k1', 2.0, '1').constant('rho', 0.1, '1')
    text = {i: g.f('d%d' % i, ['x0', 'k0'] + ['qq%d' % j for j in deps[i]]) for i in range(n)}

    def declare(p, defs):
        q = lambda i: ('qq%d' % i) if defs is None else '(%s)' % defs[i]
        f = lambda name, *ix: g2(name, [q(i) for i in ix])
        p.state('x0', f('F0', 0, 2), 'm').state('x1', f('F1', 1) + ' + x1*' + q(3), 'm').quad('z', f('Z', 2), 'm')
        p.control('u0', '1')
        p.set_cost(path=f('L', 0, 1, 2, 3), initial=f('A', 3), terminal=f('B', 0), units='J')
        p.initial_constraint(f('C0', 0), 'm').terminal_constraint(f('Cf', 1, 3), 'm')
        p.path_constraint('u0', '1', lower='-(%s)' % q(1), upper=q(0) + ' + 5', activator=q(2), method='epstrig')
        p.path_constraint(f('G', 0), '1', lower='-k0', upper=q(3), activator='k1', method='utm')
        p.switch('sw', [f('S1', 0), f('S2', 1)], [[q(2) + ' - x1'], ['x1 - ' + q(3)]], 'rho')
        p.constant_of_motion('com', f('M', 0), 'J')
        p.symmetry([q(0), f('Y', 1)], 'm')
        p.scale(m='x0', s=q(3))
    gtext = {}

    def g2(name, args):
        if g.opaque:
            P.add_symbolic_local(name, sympy.Function(name))
            return '%s(x0, %s)' % (name, ', '.join(args))
        how = gtext.setdefault(name, w.rng.choice(['square', 'square', 'bare', 'minus', 'product']))
        if how == 'bare':
            return args[0]
        if how == 'minus':
            return '(-%s)' % args[-1]
        if how == 'product':
            return '(' + '*'.join(args) + ')'
        return '(x0 + ' + ' + '.join('%d*%s**2' % (i + 2, a) for i, a in enumerate(args)) + ')'
    for i in order:
        P.quantity('qq%d' % i, text[i])
    declare(P, None)
    pre()(P)
    qs = {sympy.Symbol('qq%d' % i) for i in range(n)}
    # reference: the same problem written with the definitions in place
    R = Problem(name='r')
    R.local_compiler.sym_locals.update({k: v for k, v in P.local_compiler.sym_locals.items() if isinstance(v, type)})
    R.independent('t', 's')
    R.constant('k0', 1.0, '1').constant('k1', 2.0, '1').constant('rho', 0.1, '1')
    full = {}

    def expand(i):
        if i not in full:
            t = text[i]
            for j in deps[i]:
                t = t.replace('qq%d' % j, '(%s)' % expand(j))
            full[i] = t
        return full[i]
    for i in range(n):
        expand(i)
    declare(R, full)
    R.sympify_self()
    a, b = exprs(P), exprs(R)
    w.ensure('same expressions', [x[0] for x in a] == [x[0] for x in b])
    for (nm, x), (_, y) in zip(a, b):
        w.ensure('%s mentions no quantity' % nm, not (x.free_symbols & qs), str(x)[:200])
        if not (x.free_symbols & qs):
            w.expr_eq('%s equals the original with definitions in place' % nm, x, y)


@contract('C15', 'bsym conc', trials=40, budget=40, bound='<=3 switches of <=3 branches, one condition per branch; functions arbitrary',
          funcs=['RASHS.transformation', 'SwitchStruct.sympify_self', 'SwitchStruct.subs_self', 'Problem.subs_all'])
def switches_become_smooth_sums(w):
    R, Eps = w.get(MF, 'RASHS', 'EpsTrig')
    ns = w.choice('ns', [1, 2, 3])
    nb = [w.choice('nb%d' % i, [1, 2, 3]) for i in range(ns)]
    spec = []
    # switch 'hi' may use switch 'lo' in its first branch
    nest = w.choice('nested', [None] + [(a, b) for a in range(ns) for b in range(ns) if a != b]) if ns < 3 or not w.symbolic else None

    def extra(p, g):
        p.constant('rho', 0.1, '1').constant('rho2', 0.3, '1')
        for i in range(ns):
            tol = ['rho', 'rho2', 'rho*2'][i]
            fs = [g.f('v%d_%d' % (i, j), ['x0', 'k0', 'u0']) for j in range(nb[i])]
            cs = [g.f('c%d_%d' % (i, j), ['x0', 'x1', 't']) for j in range(nb[i])]
            if nest is not None and nest[0] == i:
                fs[0] = '(%s)*sw%d' % (fs[0], nest[1])
            p.switch('sw%d' % i, fs, [[c] for c in cs], tol)
            spec.append((fs, cs, tol))
        p.state('y', ' + '.join('sw%d*x0' % i for i in range(ns)), 'm')
        p.quad('z', 'sw0**2' if w.symbolic or w.rng.random() < 0.7 else 'sw0', 'm')
        p.cost.path = '(%s) + sw%d*u0**2' % (p.cost.path, ns - 1)
        p.cost.terminal = 'sw0' if not w.symbolic and w.rng.random() < 0.3 else 'sw0 + (%s)' % p.cost.terminal
        if not w.symbolic and w.rng.random() < 0.3:
            p.cost.initial = 'sw%d' % (ns - 1)
        p.initial_constraint('sw0*x0', 'm')
        p.path_constraint('sw%d*x0' % (ns - 1), 'm', lower='-sw0', upper='k0 + sw0', activator='k1')
    p = generic_ocp(w, 2, 1, 1, 1, extra=extra)
    o = copy.deepcopy(p)
    out = R()(p)
    S = p.sympify
    val = {}
    for i, (fs, cs, tol) in enumerate(spec):
        val[sympy.Symbol('sw%d' % i)] = sum((S(f) / (1 + sympy.exp(S(c) / S(tol))) for f, c in zip(fs, cs)), sympy.Integer(0))
    if nest is not None:
        hi = sympy.Symbol('sw%d' % nest[0])
        lo = sympy.Symbol('sw%d' % nest[1])
        val[hi] = val[hi].subs(lo, val[lo])
    a, b = [e for e in exprs(out) if not e[0].startswith('switch')], [e for e in exprs(o) if not e[0].startswith('switch')]
    for (nm, x), (_, y) in zip(a, b):
        w.ensure('%s mentions no switch' % nm, not (x.free_symbols & set(val)))
        w.expr_eq('%s: switch replaced by the sum of branch value times activation' % nm, x, y.subs(val, simultaneous=True) if nest else y.subs(val))
    # the activation tends to one / zero
    rho = sympy.Symbol('rho', positive=True)
    c = sympy.Symbol('c', positive=True)
    act = lambda cond: 1 / (1 + sympy.exp(cond / rho))
    w.ensure('activation tends to one where the condition is negative', sympy.limit(act(-c), rho, 0, '+') == 1)
    w.ensure('activation tends to zero where the condition is positive', sympy.limit(act(c), rho, 0, '+') == 0)


@contract('C15', 'conc', trials=24, budget=40, bound='problems with a switch, a quantity and an inequality constraint, every derivation method',
          funcs=['make_indirect_method', 'make_direct_method', 'make_preprocessor', 'RASHS.transformation'])
def every_method_replaces_switches_and_quantities(w):
    """whatever else the problem contains, the derived problem mentions neither switches nor quantities"""
    P = w.get(SP, 'Problem')
    pre, ind, dirm = w.get(MF, 'make_preprocessor', 'make_indirect_method', 'make_direct_method')
    r = w.rng
    p = P(name='sw')
    p.independent('t', '1').state('x', 'v', '1').state('v', 'T*u + Q', '1').control('u', '1')
    p.constant('tol', 0.1, '1').constant('x_f', 1.0, '1').constant('T1', 1.0, '1').constant('T2', 2.0, '1').constant('eps', 0.1, '1')
    p.quantity('Q', 'T1*x**2' if r.random() < 0.5 else 'T*x')
    p.switch('T', ['T1', 'T2 + Z' if r.random() < 0.5 else 'T2'], [['x - x_f'], ['x_f - x']], 'tol')
    p.switch('Z', ['x'], [['v - T1']], 'tol')
    p.set_cost(path='u**2 + T' if r.random() < 0.5 else 'u**2', initial='0', terminal='T*x' if r.random() < 0.5 else '0', units='1')
    p.initial_constraint('x', '1').initial_constraint('t', '1').terminal_constraint('x - x_f', '1')
    con = r.choice([None, 'path', 'initial', 'terminal', 'epstrig'])
    if con == 'path':
        p.path_constraint('v', '1', lower='-T2', upper='T2', activator='eps', method='utm')
    elif con == 'epstrig':
        p.path_constraint('u', '1', lower='-T2', upper='T2', activator='eps', method=r.choice(['epstrig', 'EpsTrig']))
    elif con:
        getattr(p, con + '_constraint')('v', '1', lower='-T2', upper='T2', activator='eps', method=r.choice(['utm', 'UTM']))
    p = pre()(p)
    kind = r.choice(['traditional', 'diffyg', 'direct', 'direct-time'])
    if kind.startswith('direct'):
        b = dirm(p, analytical_jacobian=False, do_momentum_shift=kind != 'direct', do_normalize_time=kind != 'direct')(p)
    else:
        b = ind(p, method=kind, control_method='differential')(p)
    bad = {sympy.Symbol(n) for n in ('T', 'Z', 'Q')}
    for nm, e in exprs(b):
        if not nm.startswith(('switch', 'constant of motion')):
            w.ensure('%s of the derived problem mentions neither switches nor quantities' % nm.split()[0], not (e.free_symbols & bad), '%s (%s, %s): %s' % (nm, kind, con, str(e)[:200]))
