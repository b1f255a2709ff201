"""C14: EpsTrig and UTM."""
import copy
import sympy
import z3
from belv import sx, terms as T
from belv.world import contract
from belv.contracts.common import generic_ocp, MF

EXPRS = ('states', 'costates', 'quads', 'coparameters')


def barrier_ok(w, B, s):
    """B(s): zero at 1/2, symmetric, non-negative on (0,1), unbounded at both ends"""
    w.expr_eq('barrier is zero at the middle', B.subs(s, sympy.Rational(1, 2)), 0)
    w.expr_eq('barrier is symmetric about the middle', B.subs(s, 1 - s), B)
    vals = [complex(B.subs(s, sympy.Float(v)).evalf()) for v in (0.01, 0.1, 0.3, 0.49, 0.51, 0.8, 0.97)]
    w.ensure('barrier is non-negative inside', all(abs(v.imag) < 1e-12 and v.real >= -1e-12 for v in vals), str(vals))
    near = [abs(complex(B.subs(s, sympy.Rational(e)).evalf())) for e in ('1/1000', '1/1000000', '1/1000000000')]
    far = [abs(complex(B.subs(s, 1 - sympy.Rational(e)).evalf())) for e in ('1/1000', '1/1000000', '1/1000000000')]
    w.ensure('barrier grows without bound towards both ends', near[0] < near[1] < near[2] and far[0] < far[1] < far[2]
             and near[2] > 1e3 and far[2] > 1e3, str((near, far)))
    if w.symbolic:
        known = 1 / sympy.cos(sympy.pi * (s - sympy.Rational(1, 2))) - 1
        if sympy.simplify(B - known) == 0:
            # lemma: 0 < cos(a) <= 1 for |a| < pi/2, so 1/cos(a) - 1 >= 0; cos(a) -> 0 at the ends
            T.ctx().log.append(T.Obligation('barrier non-negative and unbounded (closed form 1/cos - 1)', 'proved', 0.0, backend='sympy-normal-form'))


def constraint_of(w, p, g, i, kind, loc):
    """declare one inequality; returns (location, method, text of expr/lower/upper, activator)"""
    x = 'u%d' % i if kind == 'epstrig' else g.f('c%d' % i, ['x0', 'k0'] + (['u0'] if loc == 'path' else []))
    lo = 'lo%d' % i
    up = 'up%d' % i
    p.constant(lo, -1.0 - i, '1').constant(up, 2.0 + i, '1').constant('act%d' % i, 0.1, '1')
    if kind == 'epstrig' and w.choice('dep%d' % i, [False, True]):
        up = '%s + x0**2' % up
    a = dict(units='1', lower=lo, upper=up, activator='act%d' % i, method=kind)
    {'initial': p.initial_constraint, 'path': p.path_constraint, 'terminal': p.terminal_constraint}[loc](x, **a)


@contract('C14', 'bsym conc', trials=40, budget=60, bound='controls <=3, one constrained among other constraints; functions arbitrary',
          funcs=['EpsTrig.transformation', 'Problem.subs_all', 'ConstraintStruct.subs_self', 'DynamicStruct.subs_self', 'CostStruct.subs_self'])
def trig_control_stays_within_its_bounds(w):
    Eps = w.get(MF, 'EpsTrig')
    nu = w.choice('nu', [1, 2, 3])
    ci = w.choice('ci', list(range(nu)))
    before = w.choice('before', [0, 1])
    quads = w.choice('quads', [0, 1])

    def extra(p, g):
        p.state('probe', 'u%d' % ci, '1')
        for i in range(before):
            p.constant('b_act', 0.2, '1').constant('b_up', 3, '1')
            p.path_constraint(g.f('cb', ['x0', 'u%d' % ci]), '1', lower='-b_up', upper='b_up', activator='b_act', method='utm')
        constraint_of(w, p, g, ci, 'epstrig', 'path')
        p.path_constraint(g.f('ca', ['x0', 'u%d' % ci]), '1', lower='k0', upper='k1', activator='k0', method='UTM')
    p = generic_ocp(w, 2, nu, 1, 1, quads=quads, extra=extra, flat=True)
    o = copy.deepcopy(p)
    out = Eps()(p)
    con = o.constraints['path'][before]
    u = o.controls[ci].sym
    w.ensure_eq('as many controls as before', len(out.controls), nu)
    v = out.controls[ci].sym
    w.ensure('the constrained control is replaced, the others kept',
             [c.name for i, c in enumerate(out.controls) if i != ci] == [c.name for i, c in enumerate(o.controls) if i != ci] and v != u)
    w.expr_eq('new control is an angle', out.controls[ci].units, 1)
    # the substituted expression: what u became (read off the rate of a state that is the control itself)
    mid, half = (con.upper + con.lower) / 2, (con.upper - con.lower) / 2
    rep = None
    for cand in (mid + half * sympy.sin(v), mid - half * sympy.sin(v), mid + half * sympy.cos(v)):
        if abs(sx.fingerprint(out.states[-1].eom) - sx.fingerprint(cand)) < 1e-8 * (1 + abs(sx.fingerprint(cand))):
            rep = cand
            break
    w.ensure('control replaced by an expression that covers exactly its interval', rep is not None,
             '%s became %s' % (u, str(out.states[-1].eom)[:300]))
    if rep is None:
        return
    if w.symbolic:
        # for every new control value the control is within the bounds, and both are reached
        side = []
        z, zl, zu = sx.to_z3(rep, None, side), sx.to_z3(con.lower, None, side), sx.to_z3(con.upper, None, side)
        T.ctx().prove('within bounds', z3.Implies(zl <= zu, z3.And(zl <= z, z <= zu)))
    ends = {sympy.simplify(rep.subs(v, s * sympy.pi / 2) - b) for s, b in ((1, con.upper), (-1, con.lower))} if rep.has(sympy.sin) else {0}
    swap = {sympy.simplify(rep.subs(v, -s * sympy.pi / 2) - b) for s, b in ((1, con.upper), (-1, con.lower))} if rep.has(sympy.sin) else {0}
    w.ensure('reaches both bounds', ends == {0} or swap == {0})
    for grp in EXPRS:
        for a, b in zip(getattr(out, grp), getattr(o, grp)):
            w.expr_eq('replaced in every rate (%s)' % grp, a.eom, b.eom.subs(u, rep))
    w.expr_eq('initial cost', out.cost.initial, o.cost.initial.subs(u, rep))
    w.expr_eq('terminal cost', out.cost.terminal, o.cost.terminal.subs(u, rep))
    w.expr_eq('path cost gains minus activator times cosine', out.cost.path, o.cost.path.subs(u, rep) - con.activator * sympy.cos(v))
    rest = [c for i, c in enumerate(o.constraints['path']) if i != before]
    w.ensure_eq('exactly that constraint removed', len(out.constraints['path']), len(rest))
    for a, b in zip(out.constraints['path'], rest):
        for f in ('expr', 'lower', 'upper', 'activator'):
            w.expr_eq('other path constraints kept (%s)' % f, getattr(a, f), getattr(b, f).subs(u, rep))
        w.ensure('method kept', a.method == b.method)
    for loc in ('initial', 'terminal'):
        w.ensure_eq('%s constraints kept' % loc, len(out.constraints[loc]), len(o.constraints[loc]))
        for a, b in zip(out.constraints[loc], o.constraints[loc]):
            w.expr_eq('%s constraint' % loc, a.expr, b.expr.subs(u, rep))


@contract('C14', 'bsym conc', trials=40, budget=60, bound='up to 2 other constraints around it; functions arbitrary', funcs=['UTM.transformation'])
def barrier_is_added_to_the_cost_of_its_location(w):
    U = w.get(MF, 'UTM')
    loc = w.choice('loc', ['initial', 'path', 'terminal'])
    pre = w.choice('pre', [0, 1, 2])
    method = w.choice('method', ['utm', 'UTM'])
    other = w.choice('other', ['none', 'eps', 'later'])

    def extra(p, g):
        put = {'initial': p.initial_constraint, 'path': p.path_constraint, 'terminal': p.terminal_constraint}
        p.constant('lo', -1.5, '1').constant('up', 2.5, '1').constant('act', 0.1, 's').constant('lo2', -3, '1').constant('act2', 0.3, 'kg')
        for i in range(pre):
            if loc == 'path':
                p.path_constraint('u0', '1', lower='lo', upper='up', activator='act2', method='epstrig')
            else:
                put[loc](g.f('pre%d' % i, ['x0', 'k0']), '1')
        # the constrained quantity is a plain constant symbol's difference so that its interval can be explored
        put[loc]('x0*k0', '1', lower='lo', upper='up*k1', activator='act', method=method)
        if other == 'later':
            put[loc](g.f('later', ['x0']), '1', lower='lo2', upper='up', activator='act2', method='utm')
        if other == 'eps' and loc != 'path':
            p.path_constraint('u0', '1', lower='lo', upper='up', activator='act2', method='epstrig')
    p = generic_ocp(w, 2, 1, 1, 1, extra=extra, flat=True)
    o = copy.deepcopy(p)
    out = U()(p)
    idx = [i for i, c in enumerate(o.constraints[loc]) if c.expr == sympy.Symbol('x0') * sympy.Symbol('k0')][0]
    con = o.constraints[loc][idx]
    for l in ('initial', 'path', 'terminal'):
        rest = [c for i, c in enumerate(o.constraints[l]) if not (l == loc and i == idx)]
        w.ensure_eq('exactly that constraint removed (%s)' % l, len(out.constraints[l]), len(rest))
        for a, b in zip(out.constraints[l], rest):
            for f in ('expr', 'lower', 'upper', 'activator'):
                if getattr(b, f) is None:
                    w.ensure('kept None', getattr(a, f) is None)
                else:
                    w.expr_eq('other constraints kept', getattr(a, f), getattr(b, f))
    for l in ('initial', 'path', 'terminal'):
        if l != loc:
            w.expr_eq('cost of the other locations unchanged', getattr(out.cost, l), getattr(o.cost, l))
    for a, b in zip(out.states, o.states):
        w.expr_eq('dynamics unchanged', a.eom, b.eom)
    add = sympy.expand(getattr(out.cost, loc) - getattr(o.cost, loc)) if not w.symbolic else getattr(out.cost, loc) - getattr(o.cost, loc)
    s = sympy.Symbol('s_')
    x0, k0 = sympy.Symbol('x0'), sympy.Symbol('k0')
    B = sympy.simplify(add.subs(x0, (con.lower + (con.upper - con.lower) * s) / k0) / con.activator)
    w.ensure('activator times a function of the place in the interval only', B.free_symbols <= {s}, str(B)[:300])
    if B.free_symbols <= {s}:
        barrier_ok(w, B, s)


@contract('C14', 'bsym conc', trials=15, budget=60, bound='<=3 inequality constraints of mixed kind and place',
          funcs=['make_direct_method', 'make_indirect_method', 'EpsTrig.transformation', 'UTM.transformation'])
def every_inequality_is_handled_once(w):
    direct = w.get(MF, 'make_direct_method')
    n = w.choice('n', [1, 2, 3])
    kinds = [w.choice('k%d' % i, ['epstrig', 'utm-initial', 'utm-path', 'utm-terminal']) for i in range(n)]

    def extra(p, g):
        for i, k in enumerate(kinds):
            if k == 'epstrig':
                p.constant('lo%d' % i, -1.0 - i, '1').constant('up%d' % i, 2.0 + i, '1').constant('act%d' % i, 0.1, '1')
                p.path_constraint('u%d' % i, '1', lower='lo%d' % i, upper='up%d' % i, activator='act%d' % i, method=k if w.symbolic else w.rng.choice([k, 'EpsTrig', 'EPSTRIG']))
            else:
                constraint_of(w, p, g, i, 'utm', k[4:])
                if not w.symbolic and w.rng.random() < 0.4:
                    p.constraints[k[4:]][-1].method = 'UTM'
    p = generic_ocp(w, 2, n, 1, 1, extra=extra)
    o = copy.deepcopy(p)
    out = direct(copy.deepcopy(p), analytical_jacobian=False)(p)
    if not w.symbolic:
        ind = w.get(MF, 'make_indirect_method')
        q = copy.deepcopy(o)
        b = ind(copy.deepcopy(o), control_method='differential', method=w.rng.choice(['traditional', 'diffyg']))(q)
        ex = [s.eom for s in b.states] + [c.expr for l in ('initial', 'terminal') for c in b.constraints[l]]
        w.ensure('indirect methods: no inequality constraint is left', not b.constraints['path']
                 and all(getattr(c, 'lower', None) is None for l in ('initial', 'terminal') for c in b.constraints[l]))
        for i in range(n):
            own = kinds[i][4:] if kinds[i] != 'epstrig' else 'path'
            if not any(getattr(out.cost, own).diff(s.sym).has(sympy.Symbol('act%d' % i)) for s in list(out.states)[:2]):
                continue
            w.ensure('indirect methods: every inequality constraint has its effect', any(e.has(sympy.Symbol('act%d' % i)) for e in ex), kinds[i])
    S = sympy.Symbol
    for l in ('initial', 'path', 'terminal'):
        want = [c.expr for c in o.constraints[l] if c.lower is None]
        w.ensure_eq('only the equality constraints are left (%s)' % l, len(out.constraints[l]), len(want))
    for i, k in enumerate(kinds):
        w.ensure('control %d' % i, (out.controls[i].name == 'u%d' % i) == (k != 'epstrig'))
    tot = sum((getattr(out.cost, l) for l in ('initial', 'path', 'terminal')), sympy.Integer(0))
    for i in range(n):
        d = tot.diff(S('act%d' % i))
        w.ensure('every constraint contributes to the cost once, through its own activator', d != 0 and not d.has(S('act%d' % i)))
        own = {'epstrig': 'path', 'utm-initial': 'initial', 'utm-path': 'path', 'utm-terminal': 'terminal'}[kinds[i]]
        for l in ('initial', 'path', 'terminal'):
            w.ensure('in the cost of its own location', getattr(out.cost, l).has(S('act%d' % i)) == (l == own))
    w.ensure('no replaced control is left', not any(S('u%d' % i) in e.free_symbols for i, k in enumerate(kinds) if k == 'epstrig'
             for e in [tot] + [s.eom for s in out.states]))
