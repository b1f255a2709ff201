"""C24: problem declarations, and solve leaving the user's inputs alone."""
import copy, contextlib, io, os, tempfile
import numpy as np
import sympy
from belv.world import contract, Missing
from belv.contracts.common import SP, TR, small_ocp, new_sol

BE = 'beluga.beluga'
GG = 'beluga.continuation.guess_generators'
LISTS = ['states', 'costates', 'parameters', 'coparameters', 'controls', 'control_law', 'constraint_parameters',
         'constraint_adjoints', 'constants', 'quantities', 'custom_functions', 'tables', 'switches', 'quads', 'symmetries',
         'constants_of_motion', 'units']


def fn(x):
    return 2 * x + 1


def fn2(x, y):
    return x * y


def ex(x):
    """what an expression or unit means, independent of the form it is kept in"""
    if x is None:
        return None
    if isinstance(x, (list, tuple, np.ndarray)):
        return [ex(z) for z in x]
    return sympy.sympify(str(x))


# kind: list it goes to, arguments after the name, {field: argument index or value}
NAMED = {
    'state': ('states', ('a*b', 'm'), {'eom': 0, 'units': 1}),
    'costate': ('costates', ('-a', '1/m'), {'eom': 0, 'units': 1}),
    'parameter': ('parameters', ('kg',), {'units': 0}),
    'coparameter': ('coparameters', ('c*d', 'J/kg'), {'eom': 0, 'units': 1}),
    'control': ('controls', ('rad',), {'units': 0}),
    'constraint_parameter': ('constraint_parameters', ('m**2',), {'units': 0}),
    'constant': ('constants', (2.25, 'm/s'), {'default_val': 0, 'units': 1}),
    'quantity': ('quantities', ('a*sin(b)',), {'expr': 0}),
    'custom_function': ('custom_functions', (fn2, 'N', ['m', 's']), {'units': 1, 'arg_units': 2}),
    'table': ('tables', ('1d_spline', [1.0, 3.0, 2.0, 5.0], [0.0, 1.0, 2.5, 3.0], 'kg', ['m']),
              {'table_type': 0, 'data': 1, 'arg_data': 2, 'units': 3, 'arg_units': 4}),
    'switch': ('switches', (['a', 'b'], [['c'], ['-c']], 'rho'), {'functions': 0, 'conditions': 1, 'tol_param': 2}),
    'quad': ('quads', ('a**2', 'm**2'), {'eom': 0, 'units': 1}),
    'constant_of_motion': ('constants_of_motion', ('a*b', 'J'), {'expr': 0, 'units': 1}),
}
CON = {'initial_constraint': 'initial', 'path_constraint': 'path', 'terminal_constraint': 'terminal'}


def fields(w, tag, o, args, spec):
    for f, i in spec.items():
        if not hasattr(o, f):
            w.ensure('%s: %s recorded' % (tag, f), False, 'no such field')
            continue
        v = getattr(o, f)
        if f in ('data', 'arg_data', 'default_val'):
            w.ensure('%s: %s as given' % (tag, f), np.array_equal(np.array(v, dtype=float), np.array(args[i], dtype=float)),
                     '%s for %s' % (v, args[i]))
        elif f == 'table_type':
            w.ensure('%s: %s as given' % (tag, f), v == args[i])
        else:
            w.ensure('%s: %s as given' % (tag, f), ex(v) == ex(args[i]), '%s for %s' % (v, args[i]))


class Old:
    """any earlier declaration: nothing about it is known"""

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Missing('an earlier declaration is inspected (%s)' % k)


class Names(dict):
    """the names in use: an arbitrary set, of which only the answer for the name asked is fixed"""

    def __init__(self, taken):
        dict.__init__(self)
        self.taken, self.asked = taken, []

    def __contains__(self, k):
        if dict.__contains__(self, k):
            return True
        self.asked.append(k)
        return k in self.taken

    def keys(self):
        s = self

        class K:
            def __contains__(self, k):
                return k in s

            def __iter__(self):
                raise Missing('the names in use are enumerated')
        return K()

    def __iter__(self):
        raise Missing('the names in use are enumerated')

    def get(self, k, d=None):
        return object() if k in self and not dict.__contains__(self, k) else dict.get(self, k, d)


def state_of(p):
    return dict({k: list(getattr(p, k)) for k in LISTS if hasattr(p, k)},
                **{'constraints.' + k: list(v) for k, v in p.constraints.items()},
                independent=[p.independent_variable], cost=[p.cost, p.cost.initial, p.cost.path, p.cost.terminal, p.cost.units,
                                                            p.cost.path_units])


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def prepared(w, taken):
    p = w.get(SP, 'Problem')()
    lc = w.attr(p, 'local_compiler')
    w.attr(lc, 'sym_locals')
    names = Names(taken)
    lc.sym_locals = names
    for k in LISTS:
        if not isinstance(getattr(p, k, None), list):
            raise Missing('list ' + k)
        setattr(p, k, [Old(), Old()])
    for k in p.constraints:
        p.constraints[k] = [Old()]
    return p, names


@contract('C24', 'sym', budget=60, funcs=['Problem.' + k for k in NAMED] + ['Problem.check_for_duplicate', 'NamedStruct.__init__',
          'LocalCompiler.add_symbolic_local'])
def declaring_a_named_item(w):
    """from any set of earlier declarations: a free name adds one item at the end, a taken one is refused"""
    kind = w.choice('kind', sorted(NAMED))
    lst, args, spec = NAMED[kind]
    taken = w.choice('taken', [False, True])
    p, names = prepared(w, {'item'} if taken else set())
    before = state_of(p)
    raised = None
    try:
        r = w.attr(p, kind)('item', *args)
    except (RuntimeWarning, ValueError, KeyError, RuntimeError) as e:
        raised = e
    if 'item' not in names.asked:
        q, qn = prepared(w, set())
        q.state('item', 'a', 'm')
        if kind == 'state' or 'item' not in qn.asked:
            raise Missing('names are not looked up in the compiler')
    w.ensure('%s: refused exactly when the name is taken' % kind, (raised is not None) == taken, repr(raised))
    after = state_of(p)
    for k in before:
        if k == lst and not taken:
            w.ensure('%s: one item added at the end' % kind, len(after[k]) == len(before[k]) + 1 and same(after[k][:-1], before[k]),
                     str(len(after[k])))
        else:
            w.ensure('%s: %s unchanged' % (kind, k), same(before[k], after[k]))
    if raised is None and not taken and len(after[lst]) > len(before[lst]):
        o = after[lst][-1]
        w.ensure('%s: name as given' % kind, o.name == 'item')
        fields(w, kind, o, args, spec)
        w.ensure('%s: the name is in use from now on' % kind, dict.__contains__(names, 'item') and names['item'] is o.sym)
        w.ensure('%s: returns the problem' % kind, r is p)
    if taken:
        w.ensure('%s: no name added' % kind, not dict.__len__(names), str(list(dict.keys(names))))


@contract('C24', 'sym', budget=40, funcs=['Problem.' + k for k in CON] + ['ConstraintStruct.__init__', 'Problem.symmetry', 'Problem.set_cost',
          'Problem.initial_cost', 'Problem.path_cost', 'Problem.terminal_cost', 'Problem.independent', 'Problem.scale'])
def declaring_constraints_costs_and_scales(w):
    kind = w.choice('kind', sorted(CON) + ['symmetry', 'set_cost', 'initial_cost', 'path_cost', 'terminal_cost', 'independent', 'scale'])
    taken = w.choice('taken', [False, True])
    p, names = prepared(w, {'item'} if taken else set())
    before = state_of(p)
    raised = None
    try:
        if kind in CON:
            r = w.attr(p, kind)('a - b', 'm', lower='lo', upper='hi + 1', activator='rho', method='epstrig')
        elif kind == 'symmetry':
            r = p.symmetry(['1', 'a'], 'm', remove=False)
        elif kind == 'set_cost':
            r = p.set_cost(initial='a', path='b', terminal='c', units='J') or p
        elif kind == 'independent':
            r = p.independent('item', 'hr')
        elif kind == 'scale':
            r = p.scale(item='a*b')
        else:
            r = w.attr(p, kind)('a*c', 'J')
    except (RuntimeWarning, ValueError, KeyError, RuntimeError) as e:
        raised, r = e, p
    named = kind in ('independent', 'scale')
    if named and 'item' not in names.asked:
        raise Missing('names are not looked up in the compiler')
    w.ensure('%s: refused exactly when the name is taken' % kind, (raised is not None) == (named and taken), repr(raised))
    after = state_of(p)
    dest = {'symmetry': 'symmetries', 'scale': 'units', 'set_cost': 'cost', 'initial_cost': 'cost', 'path_cost': 'cost',
            'terminal_cost': 'cost', 'independent': 'independent'}.get(kind) or 'constraints.' + CON[kind]
    ok = raised is None
    for k in before:
        if k != dest or not ok:
            w.ensure('%s: %s unchanged' % (kind, k), same(before[k], after[k]))
    if not ok:
        return
    w.ensure('%s: returns the problem' % kind, r is p)
    if kind in CON or kind in ('symmetry', 'scale'):
        w.ensure('%s: one item added at the end' % kind, len(after[dest]) == len(before[dest]) + 1 and same(after[dest][:-1], before[dest]))
        o = after[dest][-1]
        if kind in CON:
            for f, v in dict(expr='a - b', units='m', lower='lo', upper='hi + 1', activator='rho').items():
                w.ensure('%s: %s as given' % (kind, f), ex(getattr(o, f, None)) == ex(v), str(getattr(o, f, None)))
            w.ensure('%s: method as given' % kind, o.method == 'epstrig')
        elif kind == 'symmetry':
            w.ensure('symmetry as given', ex(o.field) == [1, sympy.Symbol('a')] and ex(o.units) == ex('m') and o.remove is False)
        else:
            w.ensure('scale as given', o.name == 'item' and ex(o.expr) == ex('a*b'))
    elif kind == 'independent':
        o = p.independent_variable
        w.ensure('independent as given', o.name == 'item' and ex(o.units) == ex('hr') and names.get('item') is o.sym)
    else:
        c = p.cost
        want = {'initial': 0, 'path': 0, 'terminal': 0}
        if kind == 'set_cost':
            want = {'initial': 'a', 'path': 'b', 'terminal': 'c', 'units': 'J'}
        else:
            part = kind.split('_')[0]
            want[part] = 'a*c'
            want['path_units' if part == 'path' else 'units'] = 'J'
        for f, v in want.items():
            w.ensure('%s: cost %s' % (kind, f), ex(getattr(c, f)) == ex(v), '%s for %s' % (getattr(c, f), v))


COSTS = ['initial_cost', 'path_cost', 'terminal_cost']
POOL = ['a', 'b', 'c', 'd', 'E', 'I', 'gamma', 'x_1', 'V0', 'beta', 'S']


@contract('C24', 'conc', trials=150, budget=30, funcs=['Problem'])
def declaration_histories(w):
    """any sequence of declarations, with names clashing across kinds"""
    p = w.get(SP, 'Problem')()
    rng = w.rng
    used, model, con, scales = {}, {k: [] for k in LISTS}, {k: [] for k in CON.values()}, []
    indep, sym, mine = None, [], []
    cost = {'initial': '0', 'path': '0', 'terminal': '0', 'units': None, 'path_units': None}
    for step in range(rng.randint(1, 14)):
        kind = rng.choice(sorted(NAMED) + sorted(CON) + ['independent', 'scale'] + COSTS + ['symmetry', 'set_cost'])
        nm = rng.choice(POOL)
        if kind == 'symmetry':
            fld, un, rm = ['1', 'b*%d' % step], rng.choice(['m', 'kg']), rng.choice([True, False])
            p.symmetry(fld, un, remove=rm)
            mine.append((fld, ['1', 'b*%d' % step]))
            sym.append((fld, un, rm))
            continue
        if kind == 'set_cost':
            parts = {k: 'a*%d' % (step + i) for i, k in enumerate(['initial', 'path', 'terminal']) if rng.random() < 0.6}
            cost = dict({'initial': '0', 'path': '0', 'terminal': '0', 'path_units': None}, units=rng.choice(['J', 'kg*m']))
            cost.update(parts)
            p.set_cost(units=cost['units'], **parts)
            continue
        if kind in COSTS:
            e, un = 'c*%d' % step, rng.choice(['J', 'kg*m'])
            getattr(p, kind)(e, un)
            cost[kind.split('_')[0]] = e
            cost['path_units' if kind == 'path_cost' else 'units'] = un
            continue
        if kind in CON:
            e = 'a - %d' % step
            lo, up = rng.choice([(None, None), ('b', None), (None, 'c'), ('b', 'c')])
            m = rng.choice(['utm', 'epstrig'])
            act, un = 'd*%d' % step if lo or up else None, rng.choice(['m', 's'])
            getattr(p, kind)(e, un, lower=lo, upper=up, activator=act, method=m)
            con[CON[kind]].append((e, lo, up, m, act, un))
            continue
        if kind == 'independent':
            call = lambda: p.independent(nm, 's')
        elif kind == 'scale':
            call = lambda: p.scale(**{nm: 'x*%d' % step})
        else:
            lst, args, spec = NAMED[kind]
            args = tuple(np.round(rng.uniform(-5, 5), 3) if isinstance(z, float) else z for z in args)
            if kind == 'switch' and rng.random() < 0.5:
                m = rng.randint(1, 4)
                args = ([rng.choice([step, 3.5, 0, -1]) for _ in range(m)], [['c - %d' % rng.randint(0, 9)] for _ in range(m)], 'rho')
            if kind == 'table':
                m = rng.randint(3, 6)
                args = (args[0], [rng.choice([0.0, 1.5, -2.0, 7.0]) for _ in range(m)], sorted(rng.sample(range(-20, 20), m))) + args[3:]
            mine.append((args, copy.deepcopy(args)))
            call = lambda: getattr(p, kind)(nm, *args)
        if nm in used:
            w.ensure_raises('%s under a name taken by %s is refused' % (kind, used[nm]), call)
        else:
            call()
            used[nm] = kind
            if kind == 'independent':
                indep = nm
            elif kind == 'scale':
                model['units'].append((nm, ('x*%d' % step,), {'expr': 0}))
            else:
                model[lst].append((nm, args, spec))
    w.ensure('the arguments given are left as they are', all(repr(a) == repr(b) for a, b in mine if not callable(a[0])))
    for k in LISTS:
        if k == 'symmetries':
            continue
        got = getattr(p, k)
        w.ensure('%s: names in declaration order' % k, [o.name for o in got] == [m[0] for m in model[k]],
                 '%s for %s' % ([o.name for o in got], [m[0] for m in model[k]]))
        if len(got) == len(model[k]):
            for o, (nm, args, spec) in zip(got, model[k]):
                fields(w, k, o, args, spec)
    for k in con:
        got = [(ex(o.expr), ex(o.lower), ex(o.upper), o.method, ex(o.activator), ex(o.units)) for o in p.constraints[k]]
        w.ensure('%s constraints as declared' % k, got == [(ex(a), ex(b), ex(c), m, ex(d), ex(u)) for a, b, c, m, d, u in con[k]], str(got))
    got = [(ex(o.field), ex(o.units), o.remove) for o in p.symmetries]
    w.ensure('symmetries as declared', got == [([ex(f) for f in a], ex(b), c) for a, b, c in sym], str(got))
    for f, v in cost.items():
        w.ensure('cost %s as declared' % f, ex(getattr(p.cost, f)) == ex(v), '%s for %s' % (getattr(p.cost, f), v))
    if indep:
        w.ensure('independent variable', p.independent_variable.name == indep)
    q = w.get(SP, 'Problem')()
    w.ensure('a new problem starts empty', not any(getattr(q, k) for k in LISTS) and not any(q.constraints.values()))
    q.state('a', 'b', 'm')


@contract('C24', 'conc', trials=60, budget=20, funcs=['Problem.sympify_self', 'Problem._sympify_struct', 'LocalCompiler.sympify',
          'CostStruct.check_path_units'])
def declared_names_win_over_built_in_ones(w):
    """an expression over declared names means those names, whatever the algebra system would otherwise call them"""
    rng = w.rng
    names = rng.sample(['_m', 'y_', '__q', 'E', 'I', 'S', 'N', 'Q', 'beta', 'gamma', 'zeta', 'x', 'v', 'alpha', 'C1', 'O', 're', 'var'], 4)
    x, v, u, k = names
    p = w.get(SP, 'Problem')()
    p.independent('t', 's')
    p.state(x, '%s*%s + %s' % (v, k, x), 'm').state(v, '%s - %s*t' % (u, x), 'm/s').control(u, 'm/s**2').constant(k, 2.0, '1')
    p.initial_constraint('%s - 1' % x, 'm').terminal_constraint('%s + %s' % (x, v), 'm')
    part = rng.choice(['path', 'initial', 'terminal'])
    p.set_cost(**{part: '%s**2 + %s' % (u if part == 'path' else v, x), 'units': 's'})
    p.sympify_self()
    X, V, U, K, t = sympy.symbols([x, v, u, k, 't'])
    w.ensure('rates', p.states[0].eom == V * K + X and p.states[1].eom == U - X * t, str([s.eom for s in p.states]))
    w.ensure('constraints', p.constraints['initial'][0].expr == X - 1 and p.constraints['terminal'][0].expr == X + V)
    want = {q: 0 for q in ('initial', 'path', 'terminal')}
    want[part] = (U if part == 'path' else V) ** 2 + X
    for q in want:
        w.ensure('cost %s' % q, getattr(p.cost, q) == want[q], str(getattr(p.cost, q)))
    w.ensure('symbols', [s.sym for s in p.states] == [X, V] and p.controls[0].sym == U and p.constants[0].sym == K)
    e = w.get(SP, 'Problem')()
    w.ensure_raises('a problem without states is refused', lambda: e.sympify_self(), RuntimeError)


# -- solve -------------------------------------------------------------------
class Solver:
    """stands for any solver: a fixed function of what it is given"""

    def __init__(self):
        self.seen, self.fns = [], {}

    def __getattr__(self, k):
        if k.startswith('set_'):
            return lambda f: self.fns.__setitem__(k, f)
        raise AttributeError(k)

    boundarycondition_function = staticmethod(lambda *a: np.zeros(1))

    def solve(self, sol, **kw):
        self.seen.append(copy.deepcopy(sol))
        r = copy.deepcopy(sol)
        r.y = 1.01 * r.y + 0.001
        r.converged = True
        if len(r.t) > 0:
            sol.y[:] = -7.0              # the solver may use its guess as scratch space
        return {'sol': r, 'niter': 1, 'success': True, 'message': ''}

    def close(self):
        pass


def fingerprint(p):
    def go(o, depth=0):
        if isinstance(o, dict):
            return {k: go(v, depth) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [go(v, depth) for v in o]
        if isinstance(o, np.ndarray):
            return o.tolist()
        if hasattr(o, '__dict__') and type(o).__module__.startswith('beluga') and depth < 3 and not isinstance(o, type):
            return type(o).__name__, {k: go(v, depth + 1) for k, v in vars(o).items()
                                      if k not in ('local_compiler', 'sympify', 'lambdify', 'add_symbolic_local', 'add_function_local',
                                                   'func', 'sym', 'table')}
        return repr(o)
    return {k: v for k, v in go(p)[1].items()}


def sol_print(s):
    return {k: repr(np.array(v).tolist() if isinstance(v, (np.ndarray, list, float, int)) else v) for k, v in vars(s).items()
            if not callable(v) and k not in ('interpolate', 'interpolation_function')}


def quiet(f):
    import logging
    logging.disable(logging.CRITICAL)
    try:
        return f()
    finally:
        logging.disable(logging.NOTSET)


KINDS = [('double', 'traditional'), ('drag', 'traditional'), ('two_controls', 'indirect'), ('utm', 'brysonho'), ('three_states', 'Traditional'),
         ('epstrig', 'traditional'), ('double', 'diffyg'), ('drag', 'diffyg'), ('double', 'direct')]


def run_solve(w, p, kind, method, guess, **kw):
    solve = w.get(BE, 'solve')
    alg = Solver()
    opts = {}
    if method == 'direct':
        opts = {'analytical_jacobian': False}
    out = quiet(lambda: solve(ocp=p, method=method, bvp_algorithm=alg, guess_generator=guess, save_sols=False, optim_options=opts, **kw))
    return out, alg


@contract('C24', 'conc', trials=26, budget=60, funcs=['solve', 'GuessGenerator.static', 'GuessGenerator.auto', 'LocalCompiler.__deepcopy__'])
def solving_leaves_the_inputs_alone_and_can_be_repeated(w):
    kind, method = w.choice('problem', KINDS)
    p = small_ocp(w, kind)
    n = len(p.states)
    gg = w.get(GG, 'guess_generator')
    gk = w.choice('guess', ['static', 'ones'] if method == 'direct' else ['auto', 'static', 'ones'])     # no control law to propagate with
    user = None
    if gk == 'static':
        user = new_sol(w)
        N = 4
        user.t = np.linspace(0, 0.7, N)
        user.y = w.arr('y', N, n, lo=0.1, hi=1.0)
        user.dual = w.arr('lam', N, n, lo=-1, hi=1)
        user.dual_t = w.arr('lamt', N)
        user.u = w.arr('u', N, len(p.controls), lo=-0.9, hi=0.9)
        user.const = np.array([c.default_val for c in p.constants])
        guess = gg('static', solinit=user)
    else:
        guess = gg(gk, start=[0.3 + 0.1 * i for i in range(n)], costate_guess=-0.2, time_integrate=0.4,
                   control_guess=[0.1] * len(p.controls))
    before, ub = fingerprint(p), user is not None and sol_print(user)
    auto = w.choice('autoscale', [True, False])
    helper = w.choice('helper', [False, True])
    out1, a1 = run_solve(w, p, kind, method, guess, autoscale=auto, initial_helper=helper)
    after = fingerprint(p)
    for k in before:
        w.ensure("the user's problem is unchanged: " + k, before[k] == after.get(k), '%s -> %s' % (str(before[k])[:150], str(after.get(k))[:150]))
    if user is not None:
        ua = sol_print(user)
        for k in ub:
            w.ensure("the user's guess is unchanged: " + k, ub[k] == ua.get(k), '%s -> %s' % (str(ub[k])[:150], str(ua.get(k))[:150]))
    out2, a2 = run_solve(w, p, kind, method, guess, autoscale=auto, initial_helper=helper)
    w.ensure('same number of results', [len(s) for s in out1] == [len(s) for s in out2])
    for s1, s2 in zip(sum(out1, []), sum(out2, [])):
        for f in ('t', 'y', 'u', 'dual', 'dual_t', 'q', 'dynamical_parameters', 'nondynamical_parameters', 'const'):
            x, z = np.array(getattr(s1, f), dtype=float), np.array(getattr(s2, f), dtype=float)
            w.ensure('solved again, same result: ' + f, x.shape == z.shape and np.allclose(x, z, rtol=1e-9, atol=1e-12, equal_nan=True),
                     '%s\n%s' % (x, z))


@contract('C24', 'conc', trials=24, budget=20, funcs=['solve'])
def unusable_settings_are_refused(w):
    solve = w.get(BE, 'solve')
    p = small_ocp(w, 'double')
    gg = w.get(GG, 'guess_generator')
    g = gg('auto', start=[0.1, 0.2])
    before = fingerprint(p)
    alg = Solver()
    base = dict(ocp=p, bvp_algorithm=alg, guess_generator=g, save_sols=False)
    n = w.choice('cpus', [0, -1, -5])
    w.ensure_raises('no processor', lambda: quiet(lambda: solve(**dict(base, n_cpus=n))), ValueError)
    w.ensure_raises('no problem', lambda: quiet(lambda: solve(**dict(base, ocp=None))), NotImplementedError)
    bad = w.choice('method', ['shooting', 'unknown', 'Indirect2', ''])
    w.ensure_raises('unknown method', lambda: quiet(lambda: solve(**dict(base, method=bad))), NotImplementedError)
    w.ensure_raises('derived problem without its maps', lambda: quiet(lambda: solve(**dict(base, bvp=p))), ValueError)
    w.ensure('nothing was solved', not alg.seen)
    w.ensure('problem unchanged', fingerprint(p) == before)
