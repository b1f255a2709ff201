"""C16: composition of transformations."""
import itertools
from belv.world import contract
from belv.contracts.common import MF


def make(w, tags):
    G = w.get(MF, 'GenericFunctor')

    class Rec(G):
        strrep = 'Rec'

        def __init__(self, tag):
            self.tag = tag

        def transformation(self, prob):
            return prob + [self.tag]
    return G, [Rec(t) for t in tags]


def set_later(G, tag):
    """a transformation given to an empty functor afterwards"""
    r = G()
    r.set_transformation(lambda self, prob: prob + [tag])
    r.tag = tag
    return r


def tree(w, leaves, name='n'):
    """a random composition tree; returns (functor builder result, order of application)"""
    if len(leaves) == 1:
        return leaves[0][0], [leaves[0][1]]
    k = w.choice('%s_cut%d' % (name, len(leaves)), list(range(1, len(leaves))))
    a, oa = tree(w, leaves[:k], name + 'l')
    b, ob = tree(w, leaves[k:], name + 'r')
    op = w.choice('%s_op%d' % (name, len(leaves)), ['mul', 'lshift', 'rshift'])
    if op == 'mul':
        return a * b, ob + oa
    if op == 'lshift':
        return a << b, ob + oa
    return a >> b, oa + ob


@contract('C16', 'bsym conc', trials=150, budget=40, bound='every composition tree of <=4 transformations and operators',
          funcs=['GenericFunctor.__mul__', 'GenericFunctor.__lshift__', 'GenericFunctor.__rshift__', 'GenericFunctor.__call__', 'GenericFunctor.__new__'])
def compositions_apply_in_the_stated_order(w):
    n = w.choice('n', [1, 2, 3, 4]) if w.symbolic else w.rng.randint(1, 8)
    G, fs = make(w, list(range(n)))
    late = w.choice('transformation set afterwards', [None] + list(range(n)))
    if late is not None:
        fs[late] = set_later(G, late)
    # operands may themselves be identities or already composed elsewhere
    other = fs[0] * fs[-1]
    f, order = tree(w, [(x, x.tag) for x in fs])
    w.ensure('applies its parts one after another in the stated order', f([]) == order, '%s vs %s' % (f([]), order))
    w.ensure('applying again gives the same', f(['s']) == ['s'] + order)
    for x in fs:
        w.ensure('operands unaltered', x([]) == [x.tag])
    w.ensure('earlier compositions unaltered', other([]) == [fs[-1].tag, fs[0].tag])
    I = G()
    for g, nm in ((f * I, 'right'), (I * f, 'left'), (f << I, 'lshift'), (I >> f, 'rshift'), (f >> I, 'rshift2')):
        w.ensure('empty transformation is an identity (%s)' % nm, g([]) == order)
    w.ensure('identity unaltered', I(['z']) == ['z'])
    p = ['x']
    w.ensure('empty transformation returns the problem', I(p) == ['x'])
    h = f
    h >>= fs[0]
    w.ensure('in-place bind builds a new composition', h([]) == order + [0] and f([]) == order)


@contract('C16', 'bsym conc', trials=40, budget=30, bound='powers <=5', funcs=['GenericFunctor.__pow__'])
def powers(w):
    n = w.choice('n', [0, 1, 2, 3, 5]) if w.symbolic else w.rng.randint(0, 9)
    G, (a, b) = make(w, ['a', 'b'])
    w.ensure('n-th power applies it exactly n times', (a ** n)([]) == ['a'] * n)
    w.ensure('power of a transformation set afterwards', (set_later(G, 'c') ** n)([]) == ['c'] * n)
    w.ensure('power of a composition', ((a * b) ** n)([]) == ['b', 'a'] * n)
    w.ensure('power inside a composition', (b * a ** n)([]) == ['a'] * n + ['b'])
    w.ensure('operand unaltered', a([]) == ['a'])
    w.ensure_raises('negative power refused', lambda: a ** (-1 - n))
    w.ensure_raises('fractional power refused', lambda: a ** 1.5)
    w.ensure_raises('text power refused', lambda: a ** 'x')


@contract('C16', 'sym', budget=20, funcs=['GenericFunctor.__mul__', 'GenericFunctor.__call__', 'GenericFunctor.__lshift__', 'GenericFunctor.__rshift__'])
def composition_by_structural_induction(w):
    """(a*b)(p) = a(b(p)) for compositions of any length: the tail of `a` is an arbitrary composition that satisfies
    the contract (induction hypothesis), `b` an arbitrary transformation"""
    G, (t, b0) = make(w, ['T', 'B'])
    w.attr(t, '_right')

    class Tail(G):
        """an arbitrary composition: opaque behaviour, and its own `*` satisfies the contract"""

        def __init__(self, name):
            self.name = name

        def __call__(self, p):
            return p + [('tail', self.name)]

        def __mul__(self, other):
            r = Tail('prod')
            r.__class__ = Prod
            r.parts = (self, other)
            return r

    class Prod(Tail):
        def __call__(self, p):
            return self.parts[0](self.parts[1](p))
    case = w.choice('case', ['leaf', 'with tail'])
    op = w.choice('op', ['mul', 'lshift', 'rshift'])
    b = w.choice('b', ['leaf', 'composition'])
    bb = b0 if b == 'leaf' else Tail('b')
    if case == 'with tail':
        t._right = Tail('r')
    before = t._right
    c = t * bb if op == 'mul' else t << bb if op == 'lshift' else bb >> t
    p = ['p']
    w.ensure('(a*b)(p) = a(b(p))', c(list(p)) == t(bb(list(p))))
    w.ensure('left operand unaltered', t._right is before and t(list(p)) == (before(list(p)) if before is not None else list(p)) + ['T'])
