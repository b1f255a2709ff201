"""C13: MomentumShift and NormalizeTime."""
import copy
import sympy
from belv.world import contract
from belv.contracts.common import generic_ocp, MF


def same_rest(w, out, o, skip=()):
    for a in ('controls', 'constants', 'constraint_parameters', 'constraint_adjoints'):
        w.ensure('%s unchanged' % a, [s.name for s in getattr(out, a)] == [s.name for s in getattr(o, a)])
    for loc in ('initial', 'path', 'terminal'):
        a, b = out.constraints[loc], o.constraints[loc]
        w.ensure_eq('%s constraints: same number' % loc, len(a), len(b))
        for x, y in zip(a, b):
            w.expr_eq('%s constraint unchanged' % loc, x.expr, y.expr)
    w.expr_eq('initial cost unchanged', out.cost.initial, o.cost.initial)
    w.expr_eq('terminal cost unchanged', out.cost.terminal, o.cost.terminal)


def dims(w):
    if w.symbolic:
        return w.choice('dims', [(1, 1, 0, 1), (2, 1, 1, 0), (3, 2, 2, 1), (1, 0, 1, 2)])
    r = w.rng
    return r.randint(1, 4), r.randint(0, 2), r.randint(0, 2), r.randint(0, 2)


@contract('C13', 'bsym conc', trials=40, budget=40, bound='states <=3, symmetries <=2; functions arbitrary',
          funcs=['MomentumShift.transformation'])
def momentum_shift(w):
    Mom = w.get(MF, 'MomentumShift')
    nx, nu, n0, nq = dims(w)
    td = w.choice('timedep', [True, False])
    tcost = not td and w.choice('path cost alone depends on time', [True, False])
    hidden = not td and not tcost and w.choice('time dependence that enters later', [None, 'switch', 'switch condition', 'constraint', 'bound'])
    nsym = w.choice('nsym', [0, 1, 2])
    newname = w.choice('newname', [None, 'tau9'])

    def extra(p, g):
        if hidden in ('switch', 'switch condition'):
            p.switch('sw', ['x0*t', 'u0'] if hidden == 'switch' else ['x0', 'u0'], [['x0 - 1'], ['t - 3' if hidden != 'switch' else '1 - x0']], 'k0')
            p.states[0].eom = str(p.states[0].eom) + ' + sw'
        elif hidden:
            p.path_constraint('x0 + t' if hidden == 'constraint' else 'x0', 'm', lower='-k0', upper='k0 + t' if hidden == 'bound' else 'k0', activator='k0', method='utm')
        if tcost:
            p.path_cost(g.f('Lt', ['x0', 't', 'u0', 'k0']) + ' + u0**2*t', 'J/s')
        for i in range(nsym):
            p.symmetry(['%d' % (i + j) if j != i else 'x0*k0' for j in range(nx)], 'm')
    p = generic_ocp(w, nx, nu, n0, 1, timedep=td, quads=nq, extra=extra, flat=True)
    o = copy.deepcopy(p)
    out = (Mom() if newname is None else Mom(newname))(p)
    t = o.independent_variable
    w.ensure_eq('exactly one state more', len(out.states), nx + 1)
    ts = out.states[-1]
    w.ensure('named after the old independent variable', ts.name == t.name and ts.sym == t.sym)
    w.expr_eq('unit rate', ts.eom, 1)
    w.expr_eq('units of the old independent variable', ts.units, t.units)
    w.ensure('new independent variable', out.independent_variable.name not in [s.name for s in out.states]
             and (newname is None or out.independent_variable.name == newname))
    w.expr_eq('with the same units', out.independent_variable.units, t.units)
    for s, s0 in zip(out.states, o.states):
        w.ensure('state kept', s.name == s0.name)
        w.expr_eq('rates unchanged', s.eom, s0.eom)
        w.expr_eq('units unchanged', s.units, s0.units)
    for s, s0 in zip(out.quads, o.quads):
        w.expr_eq('quadratures unchanged', s.eom, s0.eom)
    w.ensure_eq('parameters unchanged', len(out.parameters), len(o.parameters))
    w.expr_eq('path cost unchanged', out.cost.path, o.cost.path)
    same_rest(w, out, o)
    dep = bool(hidden) or any(e.has(t.sym) and e.diff(t.sym) != 0 for e in [s.eom for s in o.states] + [o.cost.path])
    w.ensure_eq('time-translation symmetry declared exactly when no rate, path cost, switch or path constraint depends on time', len(out.symmetries), nsym + (0 if dep else 1))
    for i in range(min(nsym, len(out.symmetries))):
        f, f0 = list(out.symmetries[i].field), list(o.symmetries[i].field)
        w.ensure_eq('symmetry extended by one component', len(f), nx + 1)
        for a, b in zip(f, f0 + [0]):
            w.expr_eq('symmetry kept, zero appended', a, b)
    if not dep and len(out.symmetries) == nsym + 1:
        f = list(out.symmetries[-1].field)
        w.ensure('translation in time', len(f) == nx + 1 and all(x == 0 for x in f[:-1]) and f[-1] == 1)
        w.expr_eq('translation has the units of time', out.symmetries[-1].units, t.units)


@contract('C13', 'bsym conc', trials=40, budget=40, bound='states <=3, quadratures <=2, parameters <=1; functions arbitrary',
          funcs=['NormalizeTime.transformation', 'Dualize.transformation'])
def normalize_time(w):
    Norm, Dual, Mom = w.get(MF, 'NormalizeTime', 'Dualize', 'MomentumShift')
    nx, nu, n0, nq = dims(w)
    stage = w.choice('stage', ['ocp', 'dual', 'diffyg'])
    npar = w.choice('npar', [0, 1])
    newname = w.choice('newname', [None, 'tau9'])
    p = generic_ocp(w, nx, nu, n0, 1, npar, quads=nq, flat=True)
    if stage != 'ocp':
        p = Dual(method='traditional' if stage == 'dual' else 'diffyg')(Mom()(p))
    o = copy.deepcopy(p)
    out = (Norm() if newname is None else Norm(newname))(p)
    w.ensure_eq('one parameter more', len(out.parameters), len(o.parameters) + 1)
    w.ensure('other parameters keep their place', [s.name for s in out.parameters[:-1]] == [s.name for s in o.parameters])
    d = out.parameters[-1]
    w.expr_eq('duration has the units of time', d.units, o.independent_variable.units)
    used = set()
    for s in o.states:
        used |= s.eom.free_symbols
    w.ensure('duration is a new symbol', d.sym not in used)
    for grp in ('states', 'costates', 'quads', 'coparameters'):
        a, b = getattr(out, grp), getattr(o, grp)
        w.ensure('%s kept' % grp, [s.name for s in a] == [s.name for s in b])
        for s, s0 in zip(a, b):
            w.expr_eq('%s rate multiplied by the duration' % grp, s.eom, s0.eom * d.sym)
            w.expr_eq('%s units kept' % grp, s.units, s0.units)
    w.expr_eq('path cost multiplied by the duration', out.cost.path, o.cost.path * d.sym)
    w.expr_eq('normalised time has no units', out.independent_variable.units, 1)
    w.ensure('new independent variable', out.independent_variable.sym not in used and (newname is None or out.independent_variable.name == newname))
    same_rest(w, out, o)


@contract('C13', 'conc', trials=30, budget=30, bound='random problems with and without path constraints and switches',
          funcs=['make_direct_method', 'make_indirect_method', 'MomentumShift.transformation', 'NormalizeTime.transformation'])
def options_of_the_methods(w):
    """each method makes time a state and normalises it exactly when it is asked to"""
    dirm, ind = w.get(MF, 'make_direct_method', 'make_indirect_method')
    r = w.rng
    con, sw = r.choice([None, 'utm', 'epstrig', 'utm-initial']), r.random() < 0.4
    td = r.random() < 0.3

    def extra(p, g):
        if sw:
            p.constant('rho', 0.2, '1')
            p.switch('sw', ['x0', '-u0'], [['x0 - 1'], ['1 - x0']], 'rho')
            p.states[0].eom = str(p.states[0].eom) + ' + sw'
        if con:
            p.constant('act', 0.2, '1')
            if con == 'utm-initial':
                p.initial_constraint('x0*2', 'm', lower='-k0', upper='k0', activator='act', method='utm')
            else:
                p.path_constraint('x0' if con == 'utm' else 'u0', '1', lower='-2', upper='3', activator='act', method=con)
    p = generic_ocp(w, r.randint(1, 3), r.randint(1, 2), 1, 1, timedep=td, extra=extra)
    o = copy.deepcopy(p)
    mom, norm = r.choice([True, False]), r.choice([True, False])
    which = r.choice(['direct', 'traditional', 'diffyg'])
    given = {}
    for k, v, dft in (('do_momentum_shift', mom, which != 'direct'), ('do_normalize_time', norm, which != 'direct')):
        if v != dft or r.random() < 0.7:
            given[k] = v
    if which == 'direct':
        out = dirm(p, analytical_jacobian=False, **given)(p)
    else:
        if not mom and td:
            return
        out = ind(p, method=which, **given)(p)
    t = o.independent_variable
    w.ensure('%s: time is a state exactly when asked' % which, (t.name in [s.name for s in out.states]) == mom)
    d = [q for q in out.parameters if q.name not in [c.name for c in o.parameters]]
    w.ensure('%s: a duration exactly when asked' % which, len(d) == (1 if norm else 0), str(d))
    if norm:
        w.expr_eq('%s: duration in units of time' % which, d[0].units, t.units)
        w.expr_eq('%s: normalised time has no units' % which, out.independent_variable.units, 1)
    else:
        w.expr_eq('%s: time keeps its units' % which, out.independent_variable.units, t.units)
    dur = d[0].sym if norm else sympy.Integer(1)
    if mom:
        ts = [s for s in out.states if s.name == t.name][0]
        w.expr_eq('%s: time passes at the rate of the duration' % which, ts.eom, dur)
    if not con and not sw:
        for s0 in o.states:
            s = [s for s in out.states if s.name == s0.name][0]
            w.expr_eq('%s: rates' % which, s.eom, s0.eom * dur)
