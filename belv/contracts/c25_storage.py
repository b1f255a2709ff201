"""C25: saving and loading."""
import copy, os, shutil, tempfile
from types import SimpleNamespace as NS
import numpy as np
from belv.world import contract, Missing
from belv.contracts.common import SP, TR, MF, small_ocp, new_sol
from belv.contracts.c24_declarations import fingerprint, sol_print, Solver, quiet, BE, GG

ST = 'beluga.utils.storage'


class Scratch:
    """a directory of our own, entered as working directory"""

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix='belv')
        os.chdir(self.dir)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)

    def files(self):
        return sorted(os.path.relpath(os.path.join(d, f), self.dir) for d, _, fs in os.walk(self.dir) for f in fs)


class Disk:
    """the file system and the serialiser, by their contracts: what is written under a name is what is read from it"""

    def __init__(self):
        self.files, self.closed = {}, []

    def open(self, name, mode='r', *a, **k):
        d = self

        class F:
            def __init__(self):
                self.name, self.mode = name, mode
                if 'w' in mode:
                    d.files[name] = []

            def __enter__(self):
                return self

            def __exit__(self, *a):
                d.closed.append(name)
                return False

            close = __exit__
        if 'b' not in mode:
            raise TypeError('serialised data need a binary file')
        if 'r' in mode and name not in self.files:
            raise FileNotFoundError(name)
        return F()

    def dump(self, obj, f, *a, **k):
        if 'w' not in f.mode:
            raise TypeError('file not writable')
        self.files[f.name].append(copy.copy(obj))

    def load(self, f, *a, **k):
        if len(self.files[f.name]) != 1:
            raise Missing('several records in a file')
        return copy.copy(self.files[f.name][0])


@contract('C25', 'sym', budget=30, funcs=['save', 'load'],
          assumes=['cloudpickle.dump / load: loading gives back an equal object (round trips of the real one in the bounded check)',
                   'open: a name denotes one file'])
def what_is_saved_is_what_is_loaded(w):
    m = w.mod(ST)
    save, load = w.get(ST, 'save', 'load')
    w.get(ST, 'pickle')
    d = Disk()
    parts = {'solutions': object(), 'ocp': object(), 'bvp': object()}
    give = {k: v for k, v in parts.items() if w.choice('give ' + k, [False, True])}
    fn = w.choice('file', ['default', 'keyword', 'positional'])
    name = 'data.beluga' if fn == 'default' else 'dir/other name.bin'
    old, oldp = m.__dict__.get('open'), m.pickle
    m.open, m.pickle = d.open, NS(dump=d.dump, load=d.load)
    try:
        args = dict(sol_set=give.get('solutions'), ocp=give.get('ocp'), bvp=give.get('bvp'))
        if fn == 'positional':
            save(args['sol_set'], args['ocp'], args['bvp'], name)
        elif fn == 'keyword':
            save(filename=name, **args)
        else:
            save(**{k: v for k, v in args.items() if v is not None})
        if not d.files:
            raise Missing('open / pickle are not used')
        w.ensure('the file asked for is the one written', list(d.files) == [name], str(list(d.files)))
        w.ensure('the file is closed', d.closed == [name])
        before = list(d.files[name])
        got = load(name)
        w.ensure('exactly the parts given', set(got) == set(give), '%s for %s' % (sorted(got), sorted(give)))
        for k in give:
            w.ensure('%s as given' % k, got.get(k) is give[k])
        w.ensure('loading changes no file', list(d.files) == [name] and len(d.files[name]) == len(before))
        w.ensure_raises('no such file', lambda: load('missing.beluga'), FileNotFoundError)
    finally:
        m.pickle = oldp
        if old is None:
            del m.open
        else:
            m.open = old


def rand_traj(w, i):
    s = new_sol(w)
    N = w.rng.choice([0, 1, 2, 5])
    r = w.nprng
    s.t = np.sort(r.rand(N))
    for f, k in (('y', 3), ('q', w.rng.choice([0, 2])), ('u', 1), ('dual', 3), ('dual_u', 1)):
        setattr(s, f, r.randn(N, k))
    s.dual_t = r.randn(N)
    s.dynamical_parameters, s.nondynamical_parameters = r.randn(2), r.randn(w.rng.choice([0, 1]))
    s.const = r.randn(4)
    s.converged = bool(r.rand() < 0.5)
    s.cost = float(r.randn())
    if w.rng.random() < 0.3 and N:
        s.y[0, 0] = w.rng.choice([np.nan, np.inf, -np.inf, 1e-300, -0.0])
    return s


@contract('C25', 'conc', trials=60, budget=30, funcs=['save', 'load', 'Trajectory'])
def solution_sets_round_trip(w):
    save, load = w.get(ST, 'save', 'load')
    sets = [[rand_traj(w, j) for j in range(w.rng.randint(0, 3))] for i in range(w.rng.randint(0, 3))]
    want = [[sol_print(s) for s in ss] for ss in sets]
    with Scratch() as d:
        fn = w.rng.choice([None, 'x', 'sub dir/result.beluga', 'a.b.c'])
        if fn and '/' in fn:
            os.mkdir('sub dir')
        if w.rng.random() < 0.3:                       # an older, longer file of that name is replaced
            with open(fn or 'data.beluga', 'wb') as f:
                f.write(b'x' * 100000)
        save(sets, **({'filename': fn} if fn else {}))
        w.ensure('the file asked for is the one written', d.files() == [fn or 'data.beluga'], str(d.files()))
        got = load(fn or 'data.beluga')
        w.ensure('only the solutions', list(got) == ['solutions'])
        back = got['solutions']
        w.ensure('same nesting', [len(a) for a in back] == [len(a) for a in sets] and type(back) is list)
        for i, (a, b) in enumerate(zip(back, want)):
            for s, x in zip(a, b):
                y = sol_print(s)
                w.ensure('same fields', set(x) == set(y))
                for k in x:
                    w.ensure('same ' + k, x[k] == y.get(k), '%s for %s' % (y.get(k), x[k]))
        for a, b in zip(sum(back, []), sum(sets, [])):
            if len(b.t) > 1 and np.all(np.isfinite(b.y)):
                s = 0.5 * (b.t[0] + b.t[1])
                w.ensure('evaluates the same', all(np.allclose(p, q) for p, q in zip(a(s), b(s))))
        for s, x in zip(sum(sets, []), sum(want, [])):
            w.ensure('saving changes nothing', sol_print(s) == x)


def bump(x):
    return 0.5 * x * x + 1


@contract('C25', 'conc jit', trials=40, budget=40, funcs=['save', 'load', 'Problem', 'LocalCompiler'])
def problems_round_trip(w):
    """the loaded problem can be solved, and the loaded derived problem computes the same"""
    save, load = w.get(ST, 'save', 'load')
    pre, ind, post = w.get(MF, 'make_preprocessor', 'make_indirect_method', 'make_postprocessor')
    kind = w.choice('kind', ['double', 'drag', 'two_controls', 'utm', 'table', 'function'])
    if kind in ('table', 'function'):
        P = w.get(SP, 'Problem')
        p = P()
        p.independent('t', 's')
        p.state('x', 'v', 'm').state('v', 'u - f(x)', 'm/s').control('u', 'm/s**2')
        if kind == 'table':
            p.table('f', '1d_spline', [0.1, 0.4, 0.2, 0.5, 0.9], [0.0, 1.0, 2.0, 3.0, 4.5], 'm/s**2', ['m'])
        else:
            p.custom_function('f', bump, 'm/s**2', ['m'])
        p.set_cost(initial='0', path='u**2', terminal='0', units='m')
        p.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
        p.terminal_constraint('x - xf', 'm').terminal_constraint('t - 1', 's').constant('xf', 1.0, 'm').scale(m='x', s='t')
    else:
        p = small_ocp(w, kind)

    def derive(q):
        q = pre()(copy.deepcopy(q))
        return post()(copy.deepcopy(ind(copy.deepcopy(q))(copy.deepcopy(q))))
    bvp = quiet(lambda: derive(p))
    give = w.choice('parts', ['both', 'ocp', 'bvp'])
    before = fingerprint(p)
    with Scratch() as d:
        save(ocp=p if give != 'bvp' else None, bvp=bvp if give != 'ocp' else None, filename='f')
        got = load('f')
    w.ensure('exactly the parts given', set(got) == {'both': {'ocp', 'bvp'}, 'ocp': {'ocp'}, 'bvp': {'bvp'}}[give], str(sorted(got)))
    w.ensure('saving changes nothing', fingerprint(p) == before)
    r = w.nprng
    if give != 'bvp':
        q = got['ocp']
        a, b = before, fingerprint(q)
        for k in a:
            w.ensure('problem: same ' + k, a[k] == b.get(k), '%s for %s' % (str(b.get(k))[:150], str(a[k])[:150]))
        bvp2 = quiet(lambda: derive(q))
        compare(w, 'derived from the loaded problem', bvp, bvp2, r)
        w.ensure_raises('names stay taken', lambda: q.state('x' if kind != 'drag' else 'h', '1', 'm'))
        q.state('fresh_name', '1', 'm')
    if give != 'ocp':
        compare(w, 'loaded derived problem', bvp, got['bvp'], r)


def compare(w, tag, a, b, r):
    fa, fb = a.functional_problem, b.functional_problem
    n, k = len(a.states), len(a.constants)
    npar, nq = len(a.parameters), len(a.quads)
    nnd = len(a.constraint_parameters) + len(a.constraint_adjoints)
    y, p, nd = r.uniform(0.2, 0.9, n), r.uniform(0.2, 0.9, npar), r.uniform(0.2, 0.9, nnd)
    y1, q0, q1 = r.uniform(0.2, 0.9, n), r.uniform(0, 1, nq), r.uniform(0, 1, nq)
    c = np.array([z.default_val for z in a.constants])
    w.ensure(tag + ': same sizes', (n, k, npar, nq) == (len(b.states), len(b.constants), len(b.parameters), len(b.quads)))
    for nm, args in (('deriv_func', (y, p, c)), ('compute_u', (y, p, c)), ('quad_func', (y, p, c))):
        f, g = getattr(fa, nm), getattr(fb, nm)
        if f is None or g is None:
            w.ensure(tag + ': same functions', f is None and g is None, nm)
            continue
        w.ensure('%s: %s computes the same' % (tag, nm), np.allclose(np.array(f(*args), dtype=float), np.array(g(*args), dtype=float)), nm)
    if fa.bc_func is not None:
        args = (y, q0, y1, q1, p, nd, c) if nq else (y, y1, p, nd, c)
        w.ensure(tag + ': bc_func computes the same', np.allclose(np.array(fa.bc_func(*args), dtype=float), np.array(fb.bc_func(*args), dtype=float)))


@contract('C25', 'conc', trials=20, budget=40, funcs=['solve', 'save'])
def solve_writes_the_file_asked_for(w):
    solve = w.get(BE, 'solve')
    load = w.get(ST, 'load')
    p = small_ocp(w, w.choice('kind', ['double', 'drag']))
    n = len(p.states)
    how = w.choice('save', ['default', True, False, 'my results.bin', 'Run_A.Data', 'x'])
    g = w.get(GG, 'guess_generator')('auto', start=[0.3] * n, costate_guess=-0.2, time_integrate=0.4, control_guess=[0.1])
    before = fingerprint(p)
    with Scratch() as d:
        kw = {} if how == 'default' else {'save_sols': how}
        out = quiet(lambda: solve(ocp=p, bvp_algorithm=Solver(), guess_generator=g, autoscale=False, **kw))
        files = [f for f in d.files() if not f.endswith('.log')]
        want = {'default': ['data.beluga'], True: ['data.beluga'], False: []}.get(how, [how])
        w.ensure('file written as asked', files == want, '%s for %s' % (files, want))
        if files and files == want:
            got = load(files[0])
            w.ensure('solutions, problem and derived problem', set(got) == {'solutions', 'ocp', 'bvp'}, str(sorted(got)))
            w.ensure('same nesting', [len(a) for a in got['solutions']] == [len(a) for a in out])
            for a, b in zip(sum(out, []), sum(got['solutions'], [])):
                w.ensure('same solution', sol_print(a) == sol_print(b))
            f = fingerprint(got['ocp'])
            for k in before:
                w.ensure('the problem as declared: ' + k, f.get(k) == before[k])


CHILD = '''
import sys, json, numpy as np
sys.path.insert(0, %(repo)r)
from beluga.utils import load
d = load(%(file)r)
b, q = d['bvp'], d['ocp']
y, p, c = [np.array(z) for z in %(args)s]
out = dict(keys=sorted(d), deriv=np.array(b.functional_problem.deriv_func(y, p, c), dtype=float).tolist(),
           states=[(s.name, str(s.eom)) for s in q.states], y=d['solutions'][0][0].y.tolist())
print('RESULT' + json.dumps(out))
'''


@contract('C25', 'conc', trials=4, budget=60, funcs=['save', 'load'])
def a_file_loads_in_another_process(w):
    import json, subprocess, sys
    save = w.get(ST, 'save')
    pre, ind, post = w.get(MF, 'make_preprocessor', 'make_indirect_method', 'make_postprocessor')
    kind = ['plain', 'table', 'function', 'two tables'][w.seed % 4]
    P = w.get(SP, 'Problem')
    p = P()
    p.independent('t', 's')
    p.state('x', 'v', 'm').state('v', 'u - %s' % {'plain': 'k*x'}.get(kind, 'f(x)' if kind != 'two tables' else 'f(x)*f2(v)'), 'm/s')
    p.control('u', 'm/s**2').constant('k', 0.7, '1/s**2')
    if 'table' in kind:
        p.table('f', '1d_spline', [0.1, 0.4, 0.2, 0.5, 0.9], [0.0, 1.0, 2.0, 3.0, 4.5], 'm/s**2', ['m'])
    if kind == 'two tables':
        p.table('f2', '1d_spline', [1.1, 0.4, 0.7, 1.5], [-1.0, 0.5, 2.0, 3.0], '1', ['m/s'])
    if kind == 'function':
        def own(x):
            return 0.5 * x * x + 1
        p.custom_function('f', own, 'm/s**2', ['m'])
    p.set_cost(initial='0', path='u**2', terminal='0', units='m')
    p.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
    p.terminal_constraint('x - xf', 'm').terminal_constraint('t - 1', 's').constant('xf', 1.0, 'm').scale(m='x', s='t')

    def derive():
        q = pre()(copy.deepcopy(p))
        return post()(copy.deepcopy(ind(copy.deepcopy(q))(copy.deepcopy(q))))
    bvp = quiet(derive)
    r = w.nprng
    y, par, c = r.uniform(0.2, 0.9, len(bvp.states)), r.uniform(0.2, 0.9, len(bvp.parameters)), np.array([z.default_val for z in bvp.constants])
    want = np.array(bvp.functional_problem.deriv_func(y, par, c), dtype=float)
    s = new_sol(w)
    s.t, s.y = np.linspace(0, 1, 3), r.randn(3, 2)
    with Scratch() as d:
        save([[s]], p, bvp, 'f.beluga')
        repo = os.environ.get('BELV_REPO', '/repo')
        code = CHILD % dict(repo=repo, file='f.beluga', args=json.dumps([y.tolist(), par.tolist(), c.tolist()]))
        o = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, timeout=50)
    res = [l for l in o.stdout.splitlines() if l.startswith('RESULT')]
    w.ensure('the file loads in another process (%s)' % kind, bool(res), o.stderr[-800:])
    if res:
        got = json.loads(res[0][6:])
        w.ensure('all parts', got['keys'] == ['bvp', 'ocp', 'solutions'])
        w.ensure('same rates', np.allclose(got['deriv'], want))
        w.ensure('same solution', got['y'] == s.y.tolist())
        w.ensure('same states', [tuple(z) for z in got['states']] == [(z.name, str(z.eom)) for z in p.states])
