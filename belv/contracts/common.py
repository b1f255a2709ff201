"""Shared vocabulary of the contracts: solutions, problems, spec functions."""
import copy
import numpy as np

TM = 'beluga.numeric.data_classes.trajectory_mappers'
TR = 'beluga.numeric.data_classes.Trajectory'
SP = 'beluga.symbolic.data_classes.symbolic_problem'
MF = 'beluga.symbolic.data_classes.mapping_functions'
CO = 'beluga.continuation.continuation'


def new_sol(w):
    return w.get(TR, 'Trajectory')()


def quadrature(w, path, t):
    """spec: Simpson's rule as scipy computes it (assumed contract of scipy.integrate.simpson)"""
    if w.symbolic:
        from belv import stubs
        return stubs.simpson(path, t)
    from scipy.integrate import simpson
    return simpson(path, x=t)


# -- optimal control problems used as generic instances -----------------------
OCP_KINDS = ['double', 'drag', 'two_controls', 'epstrig', 'utm', 'three_states']


def small_ocp(w, kind):
    P = w.get(SP, 'Problem')
    p = P(name=kind)
    p.independent('t', 's')
    if kind in ('double', 'epstrig', 'utm'):
        p.state('x', 'v', 'm').state('v', 'u*g0 - k1*x', 'm/s').control('u', '1')
        p.constant('g0', 1.3, 'm/s**2').constant('k1', 0.2, '1/s**2')
        p.set_cost(path='u**2 + 1 + 0.1*x**2', initial='0', terminal='0', units='s')
        p.initial_constraint('x - x_0', 'm').initial_constraint('v - v_0', 'm/s').initial_constraint('t', 's')
        p.terminal_constraint('x - x_f', 'm').terminal_constraint('v - v_f', 'm/s')
        p.constant('x_0', 0, 'm').constant('v_0', 0, 'm/s').constant('x_f', 1, 'm').constant('v_f', 0.1, 'm/s')
        if kind == 'epstrig':
            p.constant('eps', 0.1, '1').constant('umax', 4, '1')
            p.path_constraint('u', '1', lower='-umax', upper='umax + 1', activator='eps', method='epstrig')
        if kind == 'utm':
            p.constant('eps', 0.1, '1').constant('vmax', 9, 'm/s')
            p.path_constraint('v', 'm/s', lower='-vmax', upper='vmax', activator='eps', method='utm')
    elif kind == 'drag':
        p.state('h', 'v*sin(gam)', 'm').state('v', 'u*a0 - D*v**2', 'm/s').state('gam', 'u/(v+7)+ t*0.01', '1')
        p.control('u', '1').constant('a0', 2.0, 'm/s**2').constant('D', 0.3, '1/m').constant('h_f', 2, 'm')
        p.set_cost(path='u**2 + h*0.1', initial='v**2', terminal='-v*h + t', units='s')
        p.initial_constraint('h', 'm').initial_constraint('t', 's')
        p.terminal_constraint('h - h_f', 'm')
    elif kind == 'two_controls':
        p.state('x', 'a*u1 - x*u2', 'm').state('z', 'u2 + x**2*u1', 'm')
        p.control('u1', '1').control('u2', '1').constant('a', 1.7, 'm/s').constant('zf', 1, 'm')
        p.set_cost(path='u1**2 + 2*u2**2 + u1*u2', initial='0', terminal='x*z', units='s')
        p.initial_constraint('x - 1', 'm').initial_constraint('t', 's').terminal_constraint('z - zf', 'm')
        p.terminal_constraint('t - 1', 's')
    elif kind == 'three_states':
        p.state('x', 'v*c1', 'm').state('z', 'w*v', 'm').state('v', 'u - c2*z', 'm/s')
        p.control('u', '1').constant('c1', 1.1, '1').constant('c2', 0.4, '1').constant('w', 0.7, '1')
        p.set_cost(path='u**2*c1', initial='x', terminal='v**2 + z', units='s')
        p.initial_constraint('x', 'm').initial_constraint('z - w', 'm').initial_constraint('t', 's')
        p.terminal_constraint('x - c2', 'm')
    p.scale(m='x' if kind != 'drag' else 'h', s='t')
    return p


def build_bvp(w, kind, opts):
    pre, ind = w.get(MF, 'make_preprocessor', 'make_indirect_method')
    ocp = small_ocp(w, kind)
    prob = copy.deepcopy(ocp)
    prob = pre()(prob)
    ocp_s = copy.deepcopy(prob)
    prob = ind(prob, **opts)(prob)
    return ocp_s, prob


def rand_sol_for(w, ocp, bvp):
    s = new_sol(w)
    N = w.dim('N', 3, 6)
    n = len(ocp.states)
    s.t = w.times('t', N, start=0)
    s.y = w.arr('y', N, n, lo=0.1, hi=1.0)
    s.dual = w.arr('lam', N, n, lo=-1, hi=1)
    s.dual_t = w.arr('lam_t', N)
    s.u = w.arr('u', N, len(ocp.controls), lo=-0.9, hi=0.9)
    s.const = np.array([c.default_val for c in ocp.constants])
    s.dynamical_parameters = w.arr('p', len(ocp.parameters))
    return s


# -- generic optimal control problems: dynamics, costs and constraints are arbitrary functions ------------------
def rexpr(rng, syms, size=3):
    """a random smooth expression (text) over the given names"""
    terms = []
    for _ in range(size):
        a, b = rng.choice(syms), rng.choice(syms)
        c = round(rng.uniform(-2, 2), 2) or 0.5
        terms.append(rng.choice(['{c}*{a}*{b}', '{c}*sin({a})', '{c}*{a}**2', '{c}*exp(-0.1*{a})*{b}', '{c}*{a}',
                                 '{c}*cos({a}*{b})', '{c}*{a}*{b}**2']).format(a=a, b=b, c='(%s)' % c))
    return ' + '.join(terms)


class Gen:
    """builds problems whose ingredients are opaque functions (symbolic tiers) or random expressions (conc)"""

    def __init__(self, w, p):
        self.w, self.p, self.n = w, p, 0
        self.opaque = w.symbolic or w.rng.random() < 0.3

    def f(self, name, args):
        import sympy
        args = list(args)
        if self.opaque:
            self.p.add_symbolic_local(name, sympy.Function(name))
            return '%s(%s)' % (name, ', '.join(args))
        r = self.w.rng
        if r.random() < 0.3:        # shapes that code may treat specially: numbers, a bare name, a plain sum
            a, b = r.choice(args), r.choice(args[-2:])
            return r.choice(['0', '1', '2.5', a, b, '(-%s)' % b, '(%s + 1)' % b, '(2*%s)' % b, '(%s - %s)' % (a, b)])
        return '(' + rexpr(self.w.rng, args) + ')'


def generic_ocp(w, nx, nu, n0, nf, npar=0, quadratic=False, timedep=True, ctime=True, quads=0, extra=None, cross=False, flat=False):
    """states x_i' = f_i(x, u, t, p, k), cost L, phi_0, phi_f and boundary constraints, all arbitrary functions"""
    P = w.get(SP, 'Problem')
    p = P(name='generic')
    p.independent('t', 's')
    g = Gen(w, p)
    xs, us = ['x%d' % i for i in range(nx)], ['u%d' % i for i in range(nu)]
    ks, ps = ['k0', 'k1'], ['p%d' % i for i in range(npar)]
    arg = xs + (['t'] if timedep else []) + ps + ks
    bnd = xs + (['t'] if ctime else []) + ps + ks

    def dyn(name):
        if quadratic:       # affine in the controls
            return g.f(name + 'a', arg) + ''.join(' + %s*%s' % (g.f(name + 'b%d' % j, arg), u) for j, u in enumerate(us))
        return g.f(name, arg + us)
    units = ['m', 'm/s', 'kg', 'm*kg']
    for i, x in enumerate(xs):
        p.state(x, dyn('f%d' % i), units[i % 4])
    for i in range(quads):
        p.quad('q%d' % i, dyn('h%d' % i), units[(i + 2) % 4])
    for i, u in enumerate(us):
        p.control(u, ['1', 'm', '1/s'][i % 3])
    for x in ps:
        p.parameter(x, 'kg')
    for i, k in enumerate(ks):
        p.constant(k, 1.5 + i, ['1', 'm'][i % 2])
    if quadratic:
        path = g.f('L', arg) + ''.join(' + (2 + %s**2)*%s**2' % (g.f('R%d' % j, xs + ks) if w.symbolic else 'k0', u) for j, u in enumerate(us))
        if nu > 1 and cross:     # coupled controls
            path += ' + %s*u0*u1' % (g.f('R01', xs + ks) if w.symbolic else 'sin(k1*x0)')
    else:
        path = g.f('L', arg + us) + ('' if g.opaque else ''.join(' + (3 + k0**2)*%s**2' % u for u in us))
    if flat and not g.opaque and w.rng.random() < 0.4:      # e.g. minimum time
        path = w.rng.choice(['1', '0', '2.5', 'k0', 'x0', 't' if timedep else 'k1', g.f('L', xs + ks)])
    p.set_cost(path=path, initial=g.f('Phi0', bnd), terminal=g.f('Phif', bnd), units='J')
    for i in range(n0):
        p.initial_constraint(g.f('psi0_%d' % i, bnd), units[i % 4])
    for i in range(nf):
        p.terminal_constraint(g.f('psif_%d' % i, bnd), units[(i + 1) % 4])
    if extra:
        extra(p, g)
    pre = w.get(MF, 'make_preprocessor')
    return pre()(p)


def all_in(w, name, got, want, signed=True, exact=False):
    """every expression of `want` is among `got` (any order, conditions up to sign); exact: and nothing else"""
    from belv import sx
    pairs, left = sx.match(list(got), list(want), signed)
    for i, (x, g) in enumerate(pairs):
        if g is None:
            w.ensure('%s: missing' % name, False, 'no condition equals %s among %s' % (str(x)[:200], [str(z)[:80] for z in got]))
        else:
            w.expr_eq(name, g, x)
    if exact:
        w.ensure('%s: nothing else' % name, not left, str(left)[:300])


# -- problems with translation symmetries (symmetry reduction) ------------------------------------------------------
def symmetric_ocp(w, kind):
    """(problem, names of the symmetric states)"""
    P = w.get(SP, 'Problem')
    p = P(name='red')
    p.independent('t', 's')
    a, b = round(w.rng.uniform(0.5, 2), 2), round(w.rng.uniform(0.5, 2), 2)
    if kind == 'brach':
        p.state('x', '%s*v*cos(th)' % a, 'm').state('y', 'v*sin(th)', 'm').state('v', 'g*sin(th)', 'm/s')
        sy = ['x', 'y']
    elif kind == 'one':
        p.state('x', '%s*v*cos(th)' % a, 'm').state('y', 'v*sin(th)', 'm').state('v', 'g*sin(th) - %s*y' % b, 'm/s')
        sy = ['x']
    elif kind == 'middle':
        p.state('x', 'v + th*x*%s' % b, 'm').state('z', 'v*th', 'm').state('v', '%s*th*g - v*x' % a, 'm/s')
        sy = ['z']
    else:
        p.state('x', 'v + th', 'm').state('v', '%s*th*g - v' % a, 'm/s')
        sy = ['x']
    names = [st.name for st in p.states]
    for s in sy:
        p.symmetry(['1' if n == s else '0' for n in names], 'm')
    p.control('th', '1').constant('g', -9.81, 'm/s**2').constant('x_f', 1, 'm')
    p.set_cost(path='1 + th**2' if kind in ('lin', 'middle') else '1', initial='0', terminal='0', units='s')
    for n in names:
        p.initial_constraint(n, 'm')
    p.initial_constraint('t', 's').terminal_constraint('x - x_f', 'm')
    return p, sy


SYMMETRIC_KINDS = ['brach', 'one', 'lin', 'middle']
