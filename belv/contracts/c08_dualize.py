"""C08: Dualize states the first-order optimality conditions."""
import copy
import sympy
from belv import sx
from belv.world import contract
from belv.contracts.common import generic_ocp, all_in, MF, SP

DIMS = 'states <=3, controls <=2, boundary constraints <=2 per end, parameters <=1; dynamics, cost and constraints arbitrary functions'


def sizes(w):
    if w.symbolic:
        return w.choice('dims', [(1, 1, 0, 0, 0), (1, 1, 1, 1, 0), (2, 1, 1, 2, 0), (2, 2, 2, 1, 0), (3, 1, 0, 2, 0),
                                 (1, 1, 1, 1, 1), (2, 1, 1, 1, 1), (2, 2, 0, 1, 2), (3, 2, 2, 2, 0)])
    r = w.rng
    if r.random() < 0.1:        # many constraints
        return (2, 1, r.choice([0, 2, 11, 13]), r.choice([1, 11, 12]), 0)
    return (r.randint(1, 4), r.randint(1, 2), r.randint(0, 3), r.randint(0, 3), r.randint(0, 1))


@contract('C08', 'bsym conc', trials=40, budget=60, bound=DIMS,
          funcs=['Dualize.transformation', 'MomentumShift.transformation', 'make_hamiltonian_vector_field',
                 'make_standard_symplectic_form', 'exterior_derivative'])
def dualize_states_the_optimality_conditions(w):
    Dualize, Mom = w.get(MF, 'Dualize', 'MomentumShift')
    nx, nu, n0, nf, npar = sizes(w)
    method = w.choice('method', ['traditional', 'diffyg'])
    shift = w.choice('shift', [False, True])
    declared = w.choice('cost units declared', ['whole', 'path only'])

    def extra(p, g):
        if declared == 'path only':
            c = p.cost
            p.set_cost(path=c.path, initial=c.initial, terminal=c.terminal, units=None)
            p.path_cost(c.path, 'J/s')
    p = generic_ocp(w, nx, nu, n0, nf, npar, flat=True, extra=extra)
    J = sympy.Symbol('J')
    if shift:
        p = Mom()(p)
    o = copy.deepcopy(p)
    out = Dualize(method=method)(p)
    xs = list(o.states)
    N = len(xs)
    # dynamics, controls, constants, parameters are the user's own
    w.ensure('states kept', [s.name for s in out.states] == [s.name for s in xs])
    for s, s0 in zip(out.states, xs):
        w.expr_eq('dynamics kept', s.eom, s0.eom)
    for a in ('controls', 'constants', 'parameters', 'quads'):
        w.ensure('%s kept' % a, [s.name for s in getattr(out, a)] == [s.name for s in getattr(o, a)])
    w.ensure('independent variable kept', out.independent_variable.name == o.independent_variable.name)
    # costates and Hamiltonian
    w.ensure_eq('one costate per state', len(out.costates), N)
    lam = [c.sym for c in out.costates]
    w.ensure('costates are distinct new symbols', len(set(lam)) == N and not set(lam) & {s.sym for s in xs})
    H = o.cost.path
    for l, s in zip(lam, xs):
        H = H + l * s.eom
    w.expr_eq('Hamiltonian is path cost plus costates times rates', out.hamiltonian.expr, H)
    for c, s in zip(out.costates, xs):
        w.expr_eq('costate rate is minus dH/dstate', c.eom, -H.diff(s.sym))
        w.expr_eq('costate units are cost per state', c.units, J / s.units)
    w.ensure_eq('one coparameter per parameter', len(out.coparameters), len(o.parameters))
    for c, s in zip(out.coparameters, o.parameters):
        w.expr_eq('coparameter rate is minus dH/dparameter', c.eom, -H.diff(s.sym))
        w.expr_eq('coparameter units are cost per parameter', c.units, J / s.units)
    # multipliers and augmented cost
    nus = list(out.constraint_adjoints)
    w.ensure_eq('one multiplier per boundary constraint', len(nus), n0 + nf)
    w.ensure('multipliers distinct', len({n.sym for n in nus}) == len(nus))
    G0, Gf = o.cost.initial, o.cost.terminal
    for n, c in zip(nus, o.constraints['initial']):
        G0 = G0 + n.sym * c.expr
        w.expr_eq('multiplier units', n.units, J / c.units)
    for n, c in zip(nus[n0:], o.constraints['terminal']):
        Gf = Gf + n.sym * c.expr
        w.expr_eq('multiplier units', n.units, J / c.units)
    w.expr_eq('initial cost augmented', out.cost.initial, G0)
    w.expr_eq('terminal cost augmented', out.cost.terminal, Gf)
    w.expr_eq('path cost kept', out.cost.path, o.cost.path)
    # boundary conditions
    pairs = list(zip(out.costates, xs)) + list(zip(out.coparameters, o.parameters))
    want0 = [c.expr for c in o.constraints['initial']] + [c.sym + G0.diff(s.sym) for c, s in pairs]
    wantf = [c.expr for c in o.constraints['terminal']] + [c.sym - Gf.diff(s.sym) for c, s in pairs]
    wantf.append(Gf.diff(o.independent_variable.sym) + H)
    all_in(w, 'initial conditions', [c.expr for c in out.constraints['initial']], want0, exact=True)
    all_in(w, 'terminal conditions', [c.expr for c in out.constraints['terminal']], wantf, exact=True)
    w.ensure_eq('path constraints kept', len(out.constraints['path']), len(o.constraints['path']))


@contract('C08', 'bsym conc', trials=20, budget=60, bound=DIMS,
          funcs=['Dualize.transformation', 'MomentumShift.transformation', 'DifferentialControlLaw.transformation',
                 'NormalizeTime.transformation', 'SquashToBVP.transformation', 'make_indirect_method'])
def whole_method_states_the_optimality_conditions(w):
    """the chained method: the same conditions, in normalised time, time an ordinary state"""
    ind = w.get(MF, 'make_indirect_method')
    nx, nu, n0, nf, _ = w.choice('dims', [(1, 1, 1, 1, 0), (2, 1, 1, 2, 0), (2, 2, 1, 1, 0)]) if w.symbolic else sizes(w)
    p = generic_ocp(w, min(nx, 3), nu, n0, nf, quadratic=nu > 1)
    o = copy.deepcopy(p)
    method = w.choice('method', ['traditional', 'diffyg'])
    out = ind(copy.deepcopy(p), method=method, control_method='differential')(p)
    t = sympy.Symbol('t')
    by = {s.name: s for s in out.states}
    dt = out.parameters[-1].sym
    xs = [(s.name, s.sym, s.eom) for s in o.states] + [('t', t, sympy.Integer(1))]
    lam = {}
    new = [s for s in out.states if s.name not in [x[0] for x in xs] + [u.name for u in o.controls]]
    w.ensure('time, costates and controls became states', all(x[0] in by for x in xs) and all(u.name in by for u in o.controls))
    # costates: in the order of the states
    co = new[:len(xs)]
    H = o.cost.path
    for c, x in zip(co, xs):
        H = H + c.sym * x[2]
    for c, x in zip(co, xs):
        w.expr_eq('state rate in normalised time', by[x[0]].eom, dt * x[2])
        want = -dt * H.diff(x[1])
        if method == 'diffyg' and x[0] == 't':
            # the geometric law may add to the time costate's rate a multiple of dH/du, which vanishes on solutions
            alt = want - sum((H.diff(u.sym) * by[u.name].eom for u in o.controls), sympy.Integer(0))
            if abs(sx.fingerprint(c.eom) - sx.fingerprint(alt)) < 1e-8 * (1 + abs(sx.fingerprint(alt))):
                want = alt
        w.expr_eq('costate rate in normalised time', c.eom, want)
    nus = list(out.constraint_parameters)
    w.ensure_eq('one multiplier per boundary constraint', len(nus), n0 + nf)
    G0, Gf = o.cost.initial, o.cost.terminal
    for n, c in zip(nus, o.constraints['initial']):
        G0 = G0 + n.sym * c.expr
    for n, c in zip(nus[n0:], o.constraints['terminal']):
        Gf = Gf + n.sym * c.expr
    want0 = [c.expr for c in o.constraints['initial']] + [c.sym + G0.diff(x[1]) for c, x in zip(co, xs)]
    wantf = [c.expr for c in o.constraints['terminal']] + [c.sym - Gf.diff(x[1]) for c, x in zip(co, xs)]
    wantf.append(H)
    wantf += [H.diff(u.sym) for u in o.controls]
    all_in(w, 'initial conditions', [c.expr for c in out.constraints['initial']], want0)
    all_in(w, 'terminal conditions', [c.expr for c in out.constraints['terminal']], wantf)
