r"""Symbolic scalars, path exploration and proof obligations (z3 back end).

The real code runs natively in CPython on these values.  A truth test on a
symbolic condition forks the path (by re-execution with a decision prefix);
every `prove` produces one verification condition  pc /\ axioms => goal.
"""
import sys, time, math, fractions
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
import numpy as np
import numbers

z3.set_param('model.completion', True)


class EngineStop(BaseException):
    """Engine control flow: not an Exception, so the code under proof cannot swallow it."""


class Unsupported(EngineStop):
    pass


class PathEnd(EngineStop):
    pass


class Budget(EngineStop):
    pass


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported('no active proof context')
    return CTX


class Obligation:
    __slots__ = ('name', 'status', 'time', 'model', 'detail', 'path', 'backend')

    def __init__(self, name, status, t, model=None, detail='', path=0, backend='z3'):
        self.name, self.status, self.time, self.model = name, status, t, model
        self.detail, self.path, self.backend = detail, path, backend


_NL = {}


def nonlinear(e):
    k = e.get_id()
    if k in _NL and _NL[k][0].eq(e):
        return _NL[k][1]
    r = False
    for t in _walk([e]):
        if z3.is_app(t):
            d = t.decl().kind()
            if d == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in t.children()) > 1:
                r = True
            elif d == z3.Z3_OP_DIV and not z3.is_rational_value(t.children()[1]):
                r = True
            if r:
                break
    _NL[k] = (e, r)
    return r


class Ctx:
    def __init__(self, prefix, deadline, log, solver_ms=10000):
        self.decs = list(prefix)
        self.pos = 0
        self.pending = []
        self.pc = []
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set('timeout', 4000)
        self.counter = {}
        self.foralls = []
        self.pairwise = []
        self.reversed_ok = False
        self.index_terms = []
        self.log = log          # list of Obligation
        self.solver_ms = solver_ms
        self.nested = 0
        self.axiom_terms = set()
        self.draws = {}
        self.frozen_fresh = False
        self.loop_stack = []
        self.nbranch = 0
        self.assumed = []
        self.trace = []

    # -- names -------------------------------------------------------------
    def fresh_name(self, base):
        if self.frozen_fresh:
            raise Unsupported('fresh symbol inside a summarised loop body: ' + base)
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n)

    # -- path condition ----------------------------------------------------
    def add(self, b):
        b = z3.simplify(b) if not isinstance(b, bool) else z3.BoolVal(b)
        if z3.is_true(b):
            return
        self.pc.append(b)
        self.solver.add(b)

    def assume(self, b):
        self.add(zb(b))
        if self.solver.check() == z3.unsat:
            raise PathEnd('infeasible assumption')

    def check(self, *extra):
        if time.time() > self.deadline:
            raise Budget('time')
        return self.solver.check(*extra)

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.nbranch += 1
        if self.nbranch > 4000:
            raise Budget('too many branches on a path')
        if self.pos < len(self.decs):
            d = self.decs[self.pos]
            self.pos += 1
            forced = d[1]
            d = d[0]
        else:
            rt = self.check(c)
            if rt == z3.unsat:
                d, forced = False, True
            else:
                rf = self.check(z3.Not(c))
                if rf == z3.unsat:
                    d, forced = True, True
                else:
                    d, forced = True, False
                    self.pending.append(self.decs[:self.pos] + [(False, False)])
            self.decs.append((d, forced))
            self.pos += 1
        if not forced:
            self.add(c if d else z3.Not(c))
        return d

    def choose(self, n):
        """Non-deterministic choice among n alternatives (all explored)."""
        if n == 1:
            return 0
        if self.pos < len(self.decs):
            d = self.decs[self.pos]
            self.pos += 1
            return d[0]
        for k in range(n - 1, 0, -1):
            self.pending.append(self.decs[:self.pos] + [(k, False)])
        self.decs.append((0, False))
        self.pos += 1
        return 0

    def sub_explore(self, fn):
        """Run fn over all its own paths; returns [(cond, result)], leaves outer decisions alone."""
        save = (self.decs, self.pos, self.pending, list(self.pc))
        out = []
        stack = [[]]
        try:
            while stack:
                pre = stack.pop()
                self.decs, self.pos, self.pending = list(pre), 0, []
                n0 = len(save[3])
                self.pc = list(save[3])
                self.solver.push()
                self.nested += 1
                try:
                    r = fn()
                    out.append((list(self.pc[n0:]), r))
                finally:
                    self.nested -= 1
                    self.solver.pop()
                stack.extend(self.pending)
                if len(out) > 64:
                    raise Budget('too many loop-body paths')
        finally:
            self.decs, self.pos, self.pending, self.pc = save
        return out

    # -- proving -----------------------------------------------------------
    def forall(self, fn):
        """Assume fn(i) for every integer term i (fn carries its own guard)."""
        self.foralls.append(fn)

    def forall2(self, fn):
        """Assume fn(i, j) for every pair of integer terms (fn carries its own guard)."""
        self.pairwise.append(fn)

    def entails(self, cond, more=(), linear=False):
        """does the path condition, with the assumed general facts, imply cond?  (linear: only its linear part)"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if linear:
            s = z3.Solver()
            s.set('timeout', 3000)
            pc = [p for p in self.pc if not nonlinear(p)]
            s.add(*pc)
            s.add(*[p for p in self.instances(c, more) if not nonlinear(p)])
            s.add(z3.Not(c))
            return s.check() == z3.unsat
        inst = self.instances(c, more)
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*self.pc)
        s.add(*inst)
        s.add(*self.axioms(list(self.pc) + [c] + inst))
        s.add(z3.Not(c))
        return s.check() == z3.unsat

    def skolem_int(self, base='k'):
        k = z3.Int(self.fresh_name(base))
        self.index_terms.append(k)
        return k

    def prove(self, name, goal, hyps=()):
        t0 = time.time()
        g = zb(goal)
        if self.nested:
            raise Unsupported('obligation inside summarised loop body')
        gs = z3.simplify(g)
        if z3.is_true(gs):
            self.log.append(Obligation(name, 'proved', 0.0, backend='z3-simplifier'))
            return True
        s = z3.Solver()
        s.set('timeout', min(1500, self.solver_ms))
        s.add(*self.pc)
        for h in hyps:
            s.add(zb(h))
        s.add(z3.Not(g))
        inst = self.instances(g)
        s.add(*inst)
        s.add(*self.axioms(list(self.pc) + [g] + inst))
        r = s.check()
        if r == z3.unknown:
            r2 = self._second_try(s)
            if r2 is not None:
                r = r2
            else:
                s.set('timeout', self.solver_ms)
                r = s.check()
        dt = time.time() - t0
        if r == z3.unsat:
            self.log.append(Obligation(name, 'proved', dt))
            return True
        if r == z3.sat:
            self.log.append(Obligation(name, 'refuted', dt, model=self.model_draws(s.model()),
                                       detail=str(gs)[:600]))
            return False
        self.log.append(Obligation(name, 'unknown', dt, detail=s.reason_unknown() + ' ' + str(gs)[:300]))
        return None

    def _second_try(self, s):
        try:
            # generalise: every uninterpreted application becomes a fresh constant (sound: unsat carries over)
            fs = abstract_ufs(list(s.assertions()))
            for tac in (None, 'qfnra-nlsat'):
                t = z3.Solver() if tac is None else z3.Then('simplify', 'purify-arith', 'elim-term-ite', 'solve-eqs', tac).solver()
                t.set('timeout', 3000)
                t.add(*fs)
                if t.check() == z3.unsat:
                    return z3.unsat
        except z3.Z3Exception:
            pass
        try:
            t = z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat').solver()
            t.set('timeout', 3000)
            t.add(*s.assertions())
            r = t.check()
            return None if r == z3.unknown else (r if r == z3.unsat else None)
        except z3.Z3Exception:
            return None

    def instances(self, g, more=()):
        out = []
        terms = list(self.index_terms) + list(more)
        if self.pairwise:       # indices the goal and the path mention take part in ordering facts
            ids = set(t.get_id() for t in terms)
            for e in bracket_terms(list(self.pc) + [g]):
                n = e.children()[1]
                for t in (e, z3.simplify(e + 1)) + ((z3.simplify(n - 1 - e), z3.simplify(n - 2 - e)) if self.reversed_ok else ()):
                    if t.get_id() not in ids:
                        ids.add(t.get_id())
                        terms.append(t)
        seen = set()
        uniq, have = [], set()
        for t in terms:
            if t.get_id() not in have:
                have.add(t.get_id())
                uniq.append(t)
        terms = uniq
        for f in self.pairwise:
            for a in terms:
                for b in terms:
                    if a is not b:
                        out.append(f(a, b))
        for f in self.foralls:
            for t in terms:
                e = f(t)
                if e is None:
                    continue
                k = e.get_id()
                if k not in seen:
                    seen.add(k)
                    out.append(e)
        return out

    def axioms(self, fs):
        return math_axioms(fs)

    def model_draws(self, m):
        out = {}
        for name, (kind, term) in self.draws.items():
            try:
                if kind == 'int':
                    out[name] = m.eval(term, True).as_long()
                elif kind == 'real':
                    out[name] = z3_to_float(m.eval(term, True))
                elif kind == 'arr':
                    fn, shape = term
                    sh = [x if isinstance(x, int) else m.eval(x, True).as_long() for x in shape]
                    if any(x > 12 for x in sh):
                        out[name] = {'shape': sh}
                        continue
                    vals = {}
                    for idx in np.ndindex(*sh):
                        vals[','.join(map(str, idx))] = z3_to_float(m.eval(fn(idx), True))
                    out[name] = {'shape': sh, 'vals': vals}
                elif kind == 'choice':
                    out[name] = term
            except Exception:
                pass
        return out


def abstract_ufs(fs):
    memo, names = {}, {}

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i]
        if z3.is_quantifier(e) or not z3.is_app(e):
            r = e
        elif e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = names.setdefault(i, z3.Const('abs!%d' % len(names), e.sort()))
        elif e.num_args():
            r = e.decl()(*[go(c) for c in e.children()])
        else:
            r = e
        memo[i] = r
        return r
    keep = list(fs)          # keep references alive while ids are used
    return [go(f) for f in keep]


def z3_to_float(v):
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_rational_value(v):
        return float(fractions.Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(fractions.Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0.0


# ---------------------------------------------------------------------------
# math functions as uninterpreted symbols with instantiated axioms
PI = z3.Real('pi')
_UF = {}


def uf(name, arity=1):
    key = (name, arity)
    if key not in _UF:
        _UF[key] = z3.Function('m_' + name, *([z3.RealSort()] * (arity + 1)))
    return _UF[key]


def _walk(fs):
    seen, stack = set(), list(fs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield e
        if z3.is_quantifier(e):
            stack.append(e.body())
        else:
            stack.extend(e.children())


def bracket_terms(fs):
    return [e for e in _walk(fs) if z3.is_app(e) and e.decl().name() == 'BRACKET' and not has_var(e)]


def has_var(e):
    if z3.is_quantifier(e):
        return False
    return z3.is_var(e) or any(has_var(c) for c in e.children())


def math_axioms(fs):
    """Instantiate textbook facts on every occurrence of sin, cos, asin, exp, sqrt, log, pi, abs..."""
    ax = []
    done = set()
    work = list(fs)
    usepi = False
    for _round in range(3):
        new = []
        for e in list(_walk(work)):
            if not z3.is_app(e):
                continue
            d = e.decl().name()
            if d == 'pi':
                usepi = True
            if d == 'BRACKET' and e.get_id() not in done and not has_var(e):
                done.add(e.get_id())
                xs, n, q = e.children()
                at = lambda i: z3.simplify(z3.Select(xs, i))
                new += [z3.Implies(z3.And(n >= 2, at(z3.IntVal(0)) <= q, q <= at(n - 1)),
                                   z3.And(e >= 0, e < n - 1, at(e) <= q, q <= at(e + 1)))]
                continue
            if not d.startswith('m_') or e.get_id() in done:
                continue
            done.add(e.get_id())
            a = e.children()
            x = a[0] if a else None
            if d == 'm_sin':
                c = uf('cos')(x)
                new += [e <= 1, e >= -1, e * e + c * c == 1]
                if z3.is_rational_value(z3.simplify(x)) and z3.simplify(x == 0).eq(z3.BoolVal(True)):
                    new += [e == 0, c == 1]
            elif d == 'm_cos':
                s = uf('sin')(x)
                new += [e <= 1, e >= -1, e * e + s * s == 1,
                        z3.Implies(z3.And(x > -PI / 2, x < PI / 2), e > 0),
                        z3.Implies(x == 0, e == 1), z3.Implies(z3.Or(x == PI / 2, x == -PI / 2), e == 0)]
            elif d == 'm_asin':
                new += [z3.Implies(z3.And(x >= -1, x <= 1),
                                   z3.And(uf('sin')(e) == x, e >= -PI / 2, e <= PI / 2))]
            elif d == 'm_acos':
                new += [z3.Implies(z3.And(x >= -1, x <= 1), z3.And(uf('cos')(e) == x, e >= 0, e <= PI))]
            elif d == 'm_exp':
                new += [e > 0, z3.Implies(x == 0, e == 1), z3.Implies(x > 0, e > 1 + x), z3.Implies(x < 0, e < 1)]
            elif d == 'm_sqrt':
                new += [z3.Implies(x >= 0, z3.And(e >= 0, e * e == x))]
            elif d == 'm_log10':
                new += [z3.Implies(x > 0, uf('pow10')(e) == x)]
            elif d == 'm_log':
                new += [z3.Implies(x > 0, uf('exp')(e) == x)]
            elif d == 'm_pow10':
                new += [e > 0, uf('log10')(e) == x]
        if not new:
            break
        ax += new
        work = new
    if usepi or any('pi' == e.decl().name() for e in _walk(ax) if z3.is_app(e) and e.num_args() == 0):
        ax += [PI > z3.RealVal('3.14159265'), PI < z3.RealVal('3.14159266')]
    return ax


# ---------------------------------------------------------------------------
def zr(x):
    """Any scalar -> z3 real term."""
    if isinstance(x, SR):
        return x.z
    if isinstance(x, SI):
        return z3.ToReal(x.z)
    if isinstance(x, SB):
        return z3.If(x.z, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, z3.ArithRef):
        return z3.ToReal(x) if x.is_int() else x
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            raise Unsupported('nan/inf constant')
        if f == math.pi:
            return PI
        return z3.RealVal(str(fractions.Fraction(f)))
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, np.ndarray) and x.size == 1:
        return zr(x.reshape(-1)[0])
    try:
        import sympy
        if isinstance(x, sympy.Number):
            return z3.RealVal(str(fractions.Fraction(int(x.p), int(x.q)))) if x.is_Rational else zr(float(x))
    except ImportError:
        pass
    raise Unsupported('not a real scalar: %r' % type(x))


def zi(x):
    if isinstance(x, SI):
        return x.z
    if isinstance(x, z3.ArithRef):
        if not x.is_int():
            raise Unsupported('real used as index')
        return x
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return z3.IntVal(int(x))
    raise Unsupported('not an int scalar: %r' % type(x))


def zb(x):
    if isinstance(x, SB):
        return x.z
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    raise Unsupported('not a bool: %r' % type(x))


def is_sym(x):
    return isinstance(x, (SR, SI, SB))


def concrete_int(z):
    """python int if the z3 int term is syntactically constant, else None."""
    if isinstance(z, int):
        return z
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return None


def mk_int(z):
    c = concrete_int(z)
    return c if c is not None else SI(z)


def mk_real(z):
    return SR(z)


class SB:

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ctx().branch(self.z)

    def __and__(self, o):
        return SB(z3.And(self.z, zb(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SB(z3.Or(self.z, zb(o)))
    __ror__ = __or__

    def __invert__(self):
        return SB(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SB)):
            return SB(self.z == zb(o))
        return False

    def __ne__(self, o):
        if isinstance(o, (bool, np.bool_, SB)):
            return SB(self.z != zb(o))
        return True

    def __hash__(self):
        return self.z.hash()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'SB(%s)' % self.z


def _num(o):
    return isinstance(o, (SR, SI, SB, int, float, np.integer, np.floating, np.bool_, bool, fractions.Fraction)) or _spnum(o)


def _spnum(o):
    m = sys.modules.get('sympy')
    return m is not None and isinstance(o, m.Number)


class SNum:
    real = property(lambda s: s)
    ndim = 0
    shape = ()
    size = 1

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        return self.z.hash()

    def __bool__(self):
        return ctx().branch(self.z != 0)

    def conjugate(self):
        return self

    def item(self):
        return self

    def astype(self, t, **k):
        return self

    def copy(self):
        return self


class SR(SNum):
    def __init__(self, z):
        self.z = z

    def _bin(self, o, f):
        if not _num(o):
            return NotImplemented
        return SR(f(self.z, zr(o)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __neg__(self): return SR(-self.z)
    def __pos__(self): return self
    def __abs__(self): return SR(z3.If(self.z >= 0, self.z, -self.z))

    def __pow__(self, o):
        return sym_pow(self, o)

    def __rpow__(self, o):
        if _num(o) and not is_sym(o) and float(o) == 10.0:
            return SR(uf('pow10')(self.z))
        return SR(uf('pow', 2)(zr(o), self.z))

    def _cmp(self, o, f):
        if isinstance(o, (float, np.floating)) and (math.isinf(o) or math.isnan(o)):
            if math.isnan(o):
                return SB(z3.BoolVal(False))
            big = z3.Real('inf_') if o > 0 else -z3.Real('inf_')
            return SB(z3.simplify(f(z3.RealVal(0), z3.RealVal(1 if o > 0 else -1))))
        if not _num(o):
            return NotImplemented
        return SB(f(self.z, zr(o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not _num(o):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not _num(o):
            return True
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = SNum.__hash__

    def __float__(self):
        v = z3.simplify(self.z)
        if z3.is_rational_value(v):
            return z3_to_float(v)
        raise Unsupported('float() of a symbolic real')

    def __int__(self):
        v = z3.simplify(self.z)
        if z3.is_rational_value(v):
            return int(z3_to_float(v))
        raise Unsupported('int() of a symbolic real')

    # numpy object-dtype ufuncs call these
    def sin(self): return SR(uf('sin')(self.z))
    def cos(self): return SR(uf('cos')(self.z))
    def tan(self): return SR(uf('sin')(self.z) / uf('cos')(self.z))
    def arcsin(self): return SR(uf('asin')(self.z))
    def arccos(self): return SR(uf('acos')(self.z))
    def arctan(self): return SR(uf('atan')(self.z))
    def exp(self): return SR(uf('exp')(self.z))
    def log(self): return SR(uf('log')(self.z))
    def log10(self): return SR(uf('log10')(self.z))
    def sqrt(self): return SR(uf('sqrt')(self.z))
    def tanh(self): return SR(uf('tanh')(self.z))
    def sinh(self): return SR(uf('sinh')(self.z))
    def cosh(self): return SR(uf('cosh')(self.z))
    def fabs(self): return abs(self)

    def __format__(self, spec):
        return 'sym'

    def __repr__(self):
        return 'SR(%s)' % self.z


def sym_pow(b, e):
    if is_sym(e):
        ze = z3.simplify(e.z)
        if z3.is_int_value(ze):
            e = ze.as_long()
        elif z3.is_rational_value(ze):
            e = fractions.Fraction(ze.numerator_as_long(), ze.denominator_as_long())
        else:
            return SR(uf('pow', 2)(zr(b), zr(e)))
    if not isinstance(e, fractions.Fraction):
        e = fractions.Fraction(e) if not _spnum(e) else fractions.Fraction(int(e.p), int(e.q))
    if e.denominator == 1:
        n = e.numerator
        r = z3.RealVal(1)
        zbv = zr(b)
        for _ in range(abs(n)):
            r = r * zbv
        if isinstance(b, SI) and n >= 0:
            ri = z3.IntVal(1)
            for _ in range(n):
                ri = ri * b.z
            return SI(ri)
        return SR(r) if n >= 0 else SR(1 / r)
    if e.denominator == 2:
        s = SR(uf('sqrt')(zr(b)))
        return sym_pow(s, e.numerator)
    return SR(uf('pow', 2)(zr(b), z3.RealVal(str(e))))


class SI(SNum):
    def __init__(self, z):
        self.z = z

    def _bin(self, o, fi):
        if isinstance(o, (SI, int, np.integer)):
            return mk_int(fi(self.z, zi(o)))
        if _num(o):
            return SR(fi(z3.ToReal(self.z), zr(o)))
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return seq_repeat(o, self)
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            return seq_repeat(o, self)
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        return SR(z3.ToReal(self.z) / zr(o)) if _num(o) else NotImplemented

    def __rtruediv__(self, o):
        return SR(zr(o) / z3.ToReal(self.z)) if _num(o) else NotImplemented

    def __floordiv__(self, o):
        if isinstance(o, (int, np.integer)) and o > 0:
            return mk_int(self.z / zi(o))
        raise Unsupported('floor division')

    def __mod__(self, o):
        if isinstance(o, (int, np.integer)) and o > 0:
            return mk_int(self.z % zi(o))
        raise Unsupported('mod')

    def __pow__(self, o):
        return sym_pow(self, o)

    def __neg__(self): return mk_int(-self.z)
    def __pos__(self): return self
    def __abs__(self): return mk_int(z3.If(self.z >= 0, self.z, -self.z))

    def _cmp(self, o, f):
        if isinstance(o, (SI, int, np.integer)):
            return SB(f(self.z, zi(o)))
        if _num(o):
            return SR(z3.ToReal(self.z))._cmp(o, f)
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not _num(o):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not _num(o):
            return True
        return self._cmp(o, lambda a, b: a != b)

    __hash__ = SNum.__hash__

    def __index__(self):
        c = concrete_int(self.z)
        if c is not None:
            return c
        # unique under the path condition?
        s = ctx()
        if s.check() == z3.sat:
            v = s.solver.model().eval(self.z, True)
            if z3.is_int_value(v) and s.check(self.z != v) == z3.unsat:
                return v.as_long()
        raise Unsupported('symbolic integer needed as a concrete index')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __format__(self, spec):
        return 'sym'

    def __repr__(self):
        return 'SI(%s)' % self.z


def seq_repeat(seq, n):
    from .symarr import SymList
    items = list(seq)
    if len(items) == 1:
        return SymList(n, lambda k: items[0])
    raise Unsupported('sequence repetition by symbolic count')


def ite(c, a, b):
    if isinstance(c, SB):
        c = c.z
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, (SI, int)) and isinstance(b, (SI, int)) and not isinstance(a, bool):
        return mk_int(z3.If(c, zi(a), zi(b)))
    return SR(z3.If(c, zr(a), zr(b)))


# ---------------------------------------------------------------------------
class ExploreResult:
    def __init__(self):
        self.obligations = []
        self.paths = 0
        self.escapes = []       # (exception, decs, model)
        self.unsupported = []   # messages
        self.vacuous = 0
        self.completed = 0
        self.time = 0.0
        self.exhausted = True


def explore(fn, deadline, max_paths=600, solver_ms=10000, on_exception=None):
    """fn(ctx) executed over all feasible paths."""
    global CTX
    res = ExploreResult()
    t0 = time.time()
    stack = [[]]
    while stack:
        if res.paths >= max_paths or time.time() > deadline:
            res.exhausted = False
            res.unsupported.append('path/time budget exhausted after %d paths' % res.paths)
            break
        prefix = stack.pop()
        c = Ctx(prefix, deadline, res.obligations, solver_ms)
        CTX = c
        res.paths += 1
        try:
            fn(c)
            # vacuity: end of path must be reachable
            if c.solver.check() == z3.unsat:
                res.vacuous += 1
            else:
                res.completed += 1
        except PathEnd:
            pass
        except Budget as e:
            res.unsupported.append('budget: %s' % e)
            res.exhausted = False
        except Unsupported as e:
            res.unsupported.append(str(e))
        except RecursionError as e:
            res.unsupported.append('recursion: %s' % e)
        except Exception as e:
            # an exception escaping the code on a feasible path is an obligation failure
            import traceback
            r = c.solver.check(*c.instances(z3.BoolVal(True)))
            if r != z3.unsat:
                m = c.model_draws(c.solver.model()) if r == z3.sat else None
                res.escapes.append((e, traceback.format_exc(limit=-6), m))
        finally:
            CTX = None
        stack.extend(c.pending)
    res.time = time.time() - t0
    return res


# -- bound variables -----------------------------------------------------------
_probe = [0]


def zlambda(body_of):
    """Lambda over one index, body built from a fresh variable (no capture), bound name canonical"""
    _probe[0] += 1
    k = z3.Int('K!probe%d' % _probe[0])
    body = z3.simplify(body_of(k))
    b = z3.Int('K!arg')
    return z3.Lambda([b], z3.substitute(body, (k, b)))
