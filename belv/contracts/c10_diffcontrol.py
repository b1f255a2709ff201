"""C10: DifferentialControlLaw."""
import copy
import sympy
from belv import sx
from belv.world import contract
from belv.contracts.common import generic_ocp, all_in, MF


def close(a, b):
    x, y = sx.fingerprint(a), sx.fingerprint(b)
    return abs(x - y) <= 1e-7 * (1 + abs(y))


@contract('C10', 'bsym conc', trials=25, budget=80,
          bound='states <=3, controls <=2 (2 controls: control-affine dynamics, quadratic cost with and without coupling); functions arbitrary',
          funcs=['DifferentialControlLaw.transformation'])
def control_rate_keeps_the_gradient_zero(w):
    Dualize, Mom, Diff = w.get(MF, 'Dualize', 'MomentumShift', 'DifferentialControlLaw')
    if w.symbolic:
        nx, nu, shift = w.choice('dims', [(1, 1, True), (2, 1, True), (3, 1, True), (1, 2, True), (2, 2, True), (1, 1, False), (2, 1, False)])
    else:
        nx, nu, shift = w.rng.randint(1, 3), w.rng.randint(1, 2), w.rng.random() < 0.7
    method = w.choice('method', ['traditional', 'diffyg']) if shift else 'traditional'
    p = generic_ocp(w, nx, nu, 1, 1, quadratic=nu > 1, cross=w.choice('coupled', [False, True]) if nu > 1 else False)
    if shift:
        p = Mom()(p)
    p = Dualize(method=method)(p)
    o = copy.deepcopy(p)
    out = Diff(method=method)(p)
    H = o.hamiltonian.expr
    us = [u.sym for u in o.controls]
    by = {s.name: s for s in list(out.states) + list(out.costates)}
    w.ensure('every control became a state, none is left', all(u.name in [s.name for s in out.states] for u in o.controls) and not out.controls)
    if any(u.name not in by for u in o.controls):
        return
    rates = {s.sym: s.eom for s in list(o.states) + list(o.costates)}
    for u in o.controls:
        rates[u.sym] = by[u.name].eom
    t = o.independent_variable.sym
    for u in us:
        g = H.diff(u)
        tot = sum((g.diff(s) * r for s, r in rates.items()), sympy.Integer(0))
        w.expr_eq('d/dt of dH/du vanishes identically', tot, sympy.Integer(0))
    for s in list(o.states) + list(o.costates):
        want = s.eom
        if method == 'diffyg' and not close(by[s.name].eom, want):
            want = want - sum((H.diff(u.sym) * by[u.name].eom for u in o.controls), sympy.Integer(0))
            w.ensure('only the time costate may gain a multiple of dH/du', s.name == '_lam_t' or s is o.costates[-1])
        w.expr_eq('other rates kept', by[s.name].eom, want)
    w.ensure('order of the other states kept', [s.name for s in out.states][:len(o.states)] == [s.name for s in o.states]
             and [s.name for s in out.costates][:len(o.costates)] == [s.name for s in o.costates])
    extra0 = []
    if method == 'diffyg':
        lu = out.costates[len(o.costates):]
        w.ensure_eq('one costate per control', len(lu), nu)
        extra0 = [c.sym for c in lu]
        for c, u in zip(lu, us):
            w.ensure('control costate rate is a multiple of dH/du', close(c.eom, -H.diff(u)) or c.eom == 0)
    all_in(w, 'initial conditions', [c.expr for c in out.constraints['initial']], [c.expr for c in o.constraints['initial']] + extra0, exact=True)
    all_in(w, 'terminal conditions: the old ones plus the gradient', [c.expr for c in out.constraints['terminal']],
           [c.expr for c in o.constraints['terminal']] + [H.diff(u) for u in us], exact=True)
    for u in o.controls:
        w.expr_eq('control keeps its units', by[u.name].units, u.units)


@contract('C10', 'bsym conc', trials=8, budget=30, bound='control entering linearly, states <=2',
          funcs=['DifferentialControlLaw.transformation'])
def singular_control_is_refused(w):
    P = w.get('beluga.symbolic.data_classes.symbolic_problem', 'Problem')
    Dualize, Mom, Diff, pre = w.get(MF, 'Dualize', 'MomentumShift', 'DifferentialControlLaw', 'make_preprocessor')
    method = w.choice('method', ['traditional', 'diffyg'])
    kind = w.choice('kind', ['one', 'one_state_dependent', 'second_of_two', 'duplicate'])
    p = P(name='lin')
    p.independent('t', 's')
    p.state('x', 'v', 'm').state('v', {'one': 'u', 'one_state_dependent': 'u*x', 'second_of_two': 'u + x*w', 'duplicate': 'u + w'}[kind], 'm')
    p.control('u', '1')
    if kind in ('second_of_two', 'duplicate'):
        p.control('w', '1')
    p.set_cost(path={'one': '1', 'one_state_dependent': 'x**2', 'second_of_two': 'u**2', 'duplicate': '(u + w)**2'}[kind],
               initial='0', terminal='0', units='1')
    p.initial_constraint('x', 'm').terminal_constraint('x - 1', 'm')
    q = Dualize(method=method)(Mom()(pre()(p)))
    w.ensure_raises('singular control law refused', lambda: Diff(method=method)(q))
